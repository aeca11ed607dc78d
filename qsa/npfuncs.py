"""NumPy functions and array methods of the model (see npmodel)."""
import math

from . import paths
from . import term as T
from . import builtins_ as B
from . import np_names as NN
from .paths import Undecided
from .values import *
from .npmodel import *
from .npmodel import _ARG, _CHAR, _fold, _truth_term


def nf(name, f):
    return NativeFn(name, f, bind=False)


UF = {}
for _a, (_real, _i, _o) in NN.UFUNCS.items():
    if _real not in UF:
        UF[_real] = UFunc(_real, _i, _o)
UF['_ones_like'] = UFunc('_ones_like', 1, 1)
UF['clip'] = UFunc('clip', 3, 1)
UF['positive'] = UF.get('positive') or UFunc('positive', 1, 1)

_OPS = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide', 'floordiv': 'floor_divide',
        'mod': 'remainder', 'pow': 'power', 'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor',
        'lshift': 'left_shift', 'rshift': 'right_shift', 'matmul': 'matmul', 'divmod': 'divmod'}
_CMP = {'eq': 'equal', 'ne': 'not_equal', 'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal'}


def _defer(I, a, b):
    """binop_should_defer"""
    if not isinstance(b, Obj):
        return False
    m = b.cls.lookup('__array_ufunc__')
    if m is not MISSING:
        return m is None
    p = b.cls.lookup('__array_priority__')
    if p is MISSING:
        return False
    mine = as_number(I, I.getattr(a, '__array_priority__')).t
    p = as_number(I, p).t
    return paths.truth(T.fn('lt', mine, p))


def _convertible(b):
    return is_pynum(b) or isinstance(b, (AArr, AList, tuple, range))


def _binary(op, uname):
    def f(I, a, b, *mod):
        if _defer(I, a, b):
            return NotImplemented
        if is_generic(a) and not _convertible(b):
            return NotImplemented
        if op == 'pow':
            r = fast_power(I, a, b)
            if r is not None:
                return r
        return ufunc_call(I, UF[uname], [a, b], {})

    def rf(I, a, b, *mod):
        if is_generic(a) and not _convertible(b):
            return NotImplemented
        if op == 'pow' and isinstance(b, AArr):
            r = fast_power(I, b, a)
            if r is not None:
                return r
        return ufunc_call(I, UF[uname], [b, a], {})

    def inp(I, a, b):
        if op == 'pow':
            r = fast_power(I, a, b, True)
            if r is not None:
                return r
        return ufunc_call(I, UF[uname], [a, b, a], {})
    return f, rf, inp


def fast_power(I, a, b, inplace=False):
    """ndarray.__pow__ replaces some scalar exponents by other ufuncs"""
    if is_generic(a):
        return None
    if isinstance(b, AArr):
        if shape_of(b) or b.dtype.kind not in 'iufb':
            return None
        e = paths.facts.norm(val(b))
    elif is_pynum(b):
        e = paths.facts.norm(B.term_of(b))
    else:
        return None
    name = None
    if a.dtype.kind in 'fc':
        for v, n in ((1, 'positive'), (-1, 'reciprocal'), (0, '_ones_like'), (.5, 'sqrt'), (2, 'square')):
            c = T.const(v)
            if e is c or e.op not in ('const', 'inf') and T.is_scalar(e) and paths.truth(T.fn('eq', e, c)):
                name = n
                break
    elif T.is_const_eq(e, 2) and (is_pynum(b) and B.kind_of(b) == 'int' or isinstance(b, AArr) and b.dtype.kind in 'iu'):
        name = 'square'
    if name is None:
        return None
    return ufunc_call(I, UF[name], [a, a] if inplace else [a], {})


def _compare(op):
    def f(I, a, b):
        if _defer(I, a, b):
            return NotImplemented
        if not _convertible(b):
            if is_generic(a):
                return NotImplemented
            if isinstance(b, (str, OpaqueStr)) or b is None or isinstance(b, (AClass, ADict, ASet, AFunc)) or \
                    isinstance(b, Obj) and I.special(b, '__array__') is MISSING:
                if op in ('eq', 'ne'):
                    return ret0(T.ZERO if op == 'eq' else T.ONE, shape_of(a), BL)
                raise I.exc(UFUNC_TYPE_ERROR, 'comparison not supported')
        if is_generic(a) and isinstance(b, AArr) and not is_generic(b):
            return I.compare(op, plain(val(a), (), a.dtype), b)
        if op in ('eq', 'ne') and isinstance(b, (AArr, AList, tuple)):
            x = as_array(I, b)
            if x.dtype.kind in 'US':
                return ret0(T.ZERO if op == 'eq' else T.ONE, shape_of(a), BL)
        return ufunc_call(I, UF[_CMP[op]], [a, b], {})
    return f


def _meth(c, name):
    def dec(f):
        c.ns[name] = NativeFn(name, f)
        return f
    return dec


def _prop(c, name, get, set_=None):
    c.ns[name] = NProperty(name, get, set_)


def key_of(I, v):
    """hashable description of an index-like argument"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (tuple, AList)):
        return tuple(key_of(I, x) for x in I.iterate(v))
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, AArr):
        return val(v)
    return repr(v)


def axis_key(I, a, axis):
    if axis is None:
        return 'all'
    ax = norm_axis(I, axis, len(shape_of(a)))
    return ax if ax is not None else 'all'


def plainly(I, a):
    """the plain array of an array-like argument; subclasses are not modelled"""
    if isinstance(a, AArr):
        if a.cls is not NDARRAY and not is_generic(a):
            raise Undecided('NumPy function on an array subclass')
        return a
    return as_array(I, a)


def install(I):
    M = I.native_modules
    B._types[ADtype] = DTYPE

    # ------------------------------------------------------------- dtypes
    _prop(DTYPE, 'kind', lambda I, d: d.kind)
    _prop(DTYPE, 'name', lambda I, d: d.name)
    _prop(DTYPE, 'itemsize', lambda I, d: d.size)
    _prop(DTYPE, 'char', lambda I, d: _CHAR.get(d.name, d.name))
    _prop(DTYPE, 'str', lambda I, d: '<' + d.kind + str(d.size))
    _prop(DTYPE, 'type', lambda I, d: SCALAR[d])
    _prop(DTYPE, 'fields', lambda I, d: None)
    _prop(DTYPE, 'names', lambda I, d: None)
    _prop(DTYPE, 'shape', lambda I, d: ())
    _prop(DTYPE, 'hasobject', lambda I, d: d.kind == 'O')
    DTYPE.ns['__new__'] = nf('__new__', lambda I, cls, d=None, *a, **k: to_dtype(I, d))
    DTYPE.ns['__hash__'] = NativeFn('__hash__', lambda I, d: AHash(0, frozenset([('dt', d.name)])))

    def dteq(I, d, o):
        if o is None:
            return False
        try:
            return to_dtype(I, o) is d
        except PyRaise:
            return False
    DTYPE.ns['__eq__'] = NativeFn('__eq__', dteq)
    DTYPE.ns['__ne__'] = NativeFn('__ne__', lambda I, d, o: not dteq(I, d, o))
    DTYPE.ns['__repr__'] = NativeFn('__repr__', lambda I, d: "dtype('%s')" % d.name)
    DTYPE.ns['__str__'] = NativeFn('__str__', lambda I, d: d.name)

    # ---------------------------------------------------------- operators
    for cls in (NDARRAY, GENERIC):
        ns = cls.ns
        for op, u in _OPS.items():
            f, rf, inp = _binary(op, u)
            ns['__%s__' % op] = NativeFn('__%s__' % op, f)
            ns['__r%s__' % op] = NativeFn('__r%s__' % op, rf)
            if cls is NDARRAY and op != 'divmod':
                ns['__i%s__' % op] = NativeFn('__i%s__' % op, inp)
        for op in _CMP:
            ns['__%s__' % op] = NativeFn('__%s__' % op, _compare(op))
        for op, u in (('neg', 'negative'), ('pos', 'positive'), ('abs', 'absolute'), ('invert', 'invert')):
            ns['__%s__' % op] = NativeFn('__%s__' % op, lambda I, a, u=u: ufunc_call(I, UF[u], [a], {}))
        _array_protocol(cls)
        _array_methods(cls)
    NDARRAY.ns['__hash__'] = None

    def ghash(I, a):
        return B.hash_of(I, pynum(val(a), a.dtype))
    GENERIC.ns['__hash__'] = NativeFn('__hash__', ghash)
    def gen_round(I, a, n=None):
        r = I.call(I.getattr(a, 'round'), [0 if n is None else n])
        if n is None and isinstance(r, AArr) and r.dtype.kind in 'fiu':
            return SNum(val(r), 'int')
        return r
    GENERIC.ns['__round__'] = NativeFn('__round__', gen_round)
    del GENERIC.ns['__setitem__']

    def nd_new(I, cls, shape, dtype=None, buffer=None, offset=0, strides=None, order=None):
        if not isinstance(cls, AClass) or not cls.issub(NDARRAY):
            raise I.exc('TypeError', 'ndarray.__new__(X): X is not a subtype of ndarray')
        if buffer is not None:
            raise Undecided('array over a buffer')
        s = parse_shape(I, shape)
        fresh_dim()
        a = AArr(cls, Buffer(T.sym('uninit%d' % id(s), False)), s, to_dtype(I, dtype))
        if cls is not NDARRAY:
            m = cls.lookup('__array_finalize__')
            if isinstance(m, AFunc):
                I.call(BoundMethod(m, a), [None])
        return a
    NDARRAY.ns['__new__'] = nf('__new__', nd_new)

    def gen_new(I, cls, v=0, *a):
        d = next((k for k, c in SCALAR.items() if c is cls), F8)
        x = base_array(I, v, d)
        return ret0(val(x), shape_of(x), d)
    GENERIC.ns['__new__'] = nf('__new__', gen_new)
    # scalars that are also Python numbers: the array behaviour first
    for d, c in SCALAR.items():
        for n, f in GENERIC.ns.items():
            if len(c.bases) > 1 and n != '__doc__':
                c.ns.setdefault(n, f)

    _functions(I, M)


def _array_protocol(cls):
    ns = cls.ns
    gen = cls is GENERIC
    ns['__array_priority__'] = SNum(T.const(-1000000 if gen else 0), 'float')
    ns['__array_finalize__'] = NativeFn('__array_finalize__', lambda I, a, obj=None: None)
    ns['__array_wrap__'] = NativeFn('__array_wrap__', lambda I, a, arr, context=None, return_scalar=False:
                                    array_wrap(I, a, arr, context, return_scalar))

    def a_ufunc(I, a, uf, method, *ins, **kw):
        if method != '__call__':
            raise Undecided('ufunc method %s' % method)
        for v in list(ins) + list(kw.get('out') or ()):
            m = B.type_of(v).lookup('__array_ufunc__') if isinstance(v, (Obj, AArr)) else MISSING
            if isinstance(m, AFunc):
                return NotImplemented
        return ufunc_call(I, uf, list(ins), dict(kw), override=False)
    ns['__array_ufunc__'] = NativeFn('__array_ufunc__', a_ufunc)

    def a_array(I, a, dtype=None, copy=None):
        if dtype is None:
            return plain(val(a), (), a.dtype) if gen else (a if a.cls is NDARRAY else mkview(I, a, NDARRAY))
        return plain(cast_t(val(a), a.dtype, to_dtype(I, dtype)), shape_of(a), to_dtype(I, dtype))
    ns['__array__'] = NativeFn('__array__', a_array)

    def a_bool(I, a):
        s = shape_of(a)
        c = count(s)
        if T.is_const_eq(c, 0):
            raise I.exc('ValueError', 'The truth value of an empty array is ambiguous.')
        if not T.is_const_eq(c, 1):
            if c.op == 'const' or not paths.truth(T.fn('eq', c, T.ONE)):
                raise I.exc('ValueError', 'The truth value of an array with more than one element is ambiguous.')
        t = item_t(val(a), a)
        if a.dtype.kind == 'b':
            return paths.truth(t)
        if a.dtype.kind in 'OUS':
            raise Undecided('truth of an object array')
        if t.op == 'inf':
            return True
        return not paths.truth(T.fn('eq', t, T.ZERO))
    ns['__bool__'] = NativeFn('__bool__', a_bool)

    def a_float(I, a):
        n = elem_number(I, a)
        if n.kind == 'complex':
            raise I.exc('TypeError', "can't convert complex to float")
        return SNum(n.t, 'float')
    ns['__float__'] = NativeFn('__float__', a_float)
    ns['__int__'] = NativeFn('__int__', lambda I, a: B.mknum(trunc_t(elem_number(I, a).t), 'int'))
    ns['__complex__'] = NativeFn('__complex__', lambda I, a: SNum(elem_number(I, a).t, 'complex'))
    ns['__index__'] = NativeFn('__index__', lambda I, a: as_index(I, a))

    def a_len(I, a):
        s = shape_of(a)
        if not s:
            raise I.exc('TypeError', 'len() of unsized object')
        return pydim(s[0])
    ns['__len__'] = NativeFn('__len__', a_len)

    def a_iter(I, a):
        s = shape_of(a)
        if not s:
            raise I.exc('TypeError', 'iteration over a 0-d array')
        if isinstance(s[0], T.Term):
            raise Undecided('iteration over a symbolic number of elements')
        return AIter(I.getitem(a, i) for i in range(s[0]))
    ns['__iter__'] = NativeFn('__iter__', a_iter)

    def a_contains(I, a, x):
        r = I.compare('eq', a, x)
        if isinstance(r, AArr):
            r = reduction(I, 'any', mkview(I, r, NDARRAY) if r.cls is not NDARRAY and not is_generic(r) else r)
        return I.truth(r)
    ns['__contains__'] = NativeFn('__contains__', a_contains)
    ns['__getitem__'] = NativeFn('__getitem__', lambda I, a, k: nd_getitem(I, a, k))
    ns['__setitem__'] = NativeFn('__setitem__', lambda I, a, k, v: nd_setitem(I, a, k, v))

    def a_format(I, a, spec):
        if shape_of(a):
            if spec != '':
                raise I.exc('TypeError', 'unsupported format string passed to %s.__format__' % a.cls.name)
            return B.str_(I, a)
        return B.format_(I, pynum(val(a), a.dtype), spec)
    ns['__format__'] = NativeFn('__format__', a_format)

    def text(I, a, how):
        if is_generic(a) and how == 'str':
            return B.str_(I, pynum(val(a), a.dtype))
        if not is_generic(a) and not shape_of(a) and how == 'str':
            return B.str_(I, pynum(val(a), a.dtype))
        return OpaqueStr(((how, val(a)),))
    ns['__str__'] = NativeFn('__str__', lambda I, a: text(I, a, 'str'))
    ns['__repr__'] = NativeFn('__repr__', lambda I, a: text(I, a, 'repr'))

    def reduce_(I, a, *p):
        if is_generic(a):
            return (NN_scalar, (a.dtype, HostObj(val(a), 'raw')))
        state = (1, tuple(pydim(d) for d in shape_of(a)), a.dtype, False, HostObj(val(a), 'raw'))
        return (NN_reconstruct, (a.cls, (0,), b'b'), state)
    ns['__reduce__'] = NativeFn('__reduce__', reduce_)

    def reduce_ex(I, a, p=2):
        m = I.special(a, '__reduce__')
        return I.call(m, [])
    ns['__reduce_ex__'] = NativeFn('__reduce_ex__', reduce_ex)

    def setstate(I, a, state):
        if not isinstance(state, tuple) or len(state) != 5:
            raise I.exc('TypeError', 'function takes exactly 5 arguments (%s given)' %
                        (len(state) if isinstance(state, tuple) else '1'))
        _, shape, dt, _, raw = state
        if not isinstance(raw, HostObj) or raw.kind != 'raw' or not isinstance(dt, ADtype):
            raise I.exc('TypeError', 'bad array state')
        a.buf = Buffer(raw.v)
        a.path = ()
        a.base = None
        a.owns = True
        a.shape = parse_shape(I, shape)
        a.dtype = dt
    ns['__setstate__'] = NativeFn('__setstate__', setstate)
    ns['__copy__'] = NativeFn('__copy__', lambda I, a: mkcopy(I, a))
    ns['__deepcopy__'] = NativeFn('__deepcopy__', lambda I, a, memo=None: mkcopy(I, a))

    # ------------------------------------------------------- attributes
    _prop(cls, 'shape', lambda I, a: tuple(pydim(d) for d in shape_of(a)), _set_shape)
    _prop(cls, 'ndim', lambda I, a: len(a.shape))
    _prop(cls, 'size', lambda I, a: pydim(count(shape_of(a))))
    _prop(cls, 'dtype', lambda I, a: a.dtype, _undecided_set('dtype'))
    _prop(cls, 'itemsize', lambda I, a: a.dtype.size)
    _prop(cls, 'nbytes', lambda I, a: B.num_binop(I, 'mul', SNum(count(shape_of(a)), 'int'), a.dtype.size))
    _prop(cls, 'base', lambda I, a: a.base)
    _prop(cls, 'flags', lambda I, a: Flags(a))
    _prop(cls, 'T', lambda I, a: _transpose(I, a))
    _prop(cls, 'real', lambda I, a: _part(I, a, 'real'), lambda I, a, v: _set_part(I, a, 'real', v))
    _prop(cls, 'imag', lambda I, a: _part(I, a, 'imag'), lambda I, a, v: _set_part(I, a, 'imag', v))
    from .npmore import Flat
    _prop(cls, 'flat', lambda I, a: Flat(a) if not is_generic(a) else Flat(plain(val(a), (), a.dtype)), _undecided_set('flat'))
    _prop(cls, 'strides', _strides, _undecided_set('strides'))
    for n in ('data', 'ctypes', '__array_interface__', '__array_struct__', 'device', 'mT'):
        _prop(cls, n, _undecided_get(n), _undecided_set(n))


def _strides(I, a):
    r, k = [], a.dtype.size
    if a.path:
        raise Undecided('strides of a view')
    for d in reversed([pydim(d) for d in shape_of(a)]):
        if not isinstance(d, int):
            raise Undecided('ndarray.strides')
        r.append(k)
        k *= d
    return tuple(reversed(r))


def _undecided_get(n):
    def f(I, a):
        raise Undecided('ndarray.%s' % n)
    return f


def _undecided_set(n):
    def f(I, a, v):
        raise Undecided('assignment to ndarray.%s' % n)
    return f


def _set_shape(I, a, s):
    b = _reshape(I, a, (s,))
    a.shape = b.shape
    a.path = b.path


def _transpose(I, a, *axes):
    s = shape_of(a)
    if len(s) < 2 and not is_generic(a):
        return mkview(I, a)
    if is_generic(a):
        return a
    if axes and axes != (None,):
        ax = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, AList)) else axes
        ax = tuple(B.concrete_index(I, x) % len(s) for x in I.iterate(ax))
        if len(ax) != len(s) or sorted(ax) != list(range(len(s))):
            raise I.exc('ValueError', "axes don't match array")
        if ax == tuple(range(len(s))):
            return mkview(I, a)
        if ax != tuple(range(len(s)))[::-1]:
            return mkview(I, a, sel=('T', ax), shape=[s[i] for i in ax])
    return mkview(I, a, sel=('T',), shape=s[::-1])


def _part(I, a, which):
    if a.dtype.kind != 'c':
        if which == 'real':
            return a
        r = mkcopy(I, a, T.ZERO)
        if not is_generic(r):
            r.writeable = False
        return r
    dt = DT['float64'] if a.dtype.size == 16 else F4
    if is_generic(a):
        return scalar(select(val(a), (which,)), dt)
    v = AArr(a.cls, a.buf, shape_of(a), dt, None, a.path + ((which,),), a.writeable, owns=False)
    set_base(v, a)
    return finalize(I, v, a)


def _set_part(I, a, which, v):
    x = as_array(I, v)
    if a.dtype.kind != 'c':
        if which == 'imag':
            raise I.exc('TypeError', 'array does not have imaginary part to set')
        nd_setitem(I, a, Ellipsis, x)
        return
    assign_check(I, x, a, shape_of(a))
    if not a.writeable:
        raise I.exc('ValueError', 'assignment destination is read-only')
    a.buf.t = update(a.buf.t, a.path + ((which,),), val(x))
    a.buf.writes += 1


def _order(I, order):
    o = B.to_host(I, order)
    if o is None:
        return 'C'
    if not isinstance(o, str):
        raise I.exc('TypeError', 'order must be str')
    if o.upper()[:1] not in ('C', 'F', 'A', 'K') or len(o) != 1:
        raise I.exc('ValueError', "order must be one of 'C', 'F', 'A', or 'K'")
    return o.upper()


def _reshape(I, a, shape, order='C'):
    s = shape_of(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, AList)):
        shape = tuple(I.iterate(shape[0]))
    o = _order(I, order)
    if o == 'F' and not is_generic(a):
        # column-major: the rows of the transpose
        r = _reshape(I, _transpose(I, a) if len(s) > 1 else a, tuple(parse_shape(I, tuple(shape)))[::-1])
        return _transpose(I, r) if len(r.shape) > 1 else r
    if o != 'C' and len(s) > 1:
        raise Undecided('reshape in the order of the memory')
    want = list(parse_shape(I, tuple(shape)))
    n = count(s)
    neg = [i for i, d in enumerate(want) if d == -1]
    if len(neg) > 1:
        raise I.exc('ValueError', 'can only specify one unknown dimension')
    if neg:
        rest = count([d for d in want if d != -1])
        want[neg[0]] = dim(T.div(n, rest))
        q = want[neg[0]]
        if isinstance(q, T.Term) and q.op == 'const':
            raise I.exc('ValueError', 'cannot reshape array')
    else:
        m = count(want)
        if m is not n:
            if m.op == 'const' and n.op == 'const' or not paths.truth(T.fn('eq', m, n)):
                raise I.exc('ValueError', 'cannot reshape array of size %s into shape %s' % (T.show(n), want))
    if is_generic(a):
        a = plain(val(a), (), a.dtype)
    sel = _reshape_sel(s, want)
    return mkview(I, a, sel=sel, shape=want)


def _reshape_sel(s, want):
    """the name of the reshaping from s to want"""
    a_ = [d for d in s if d != 1]
    b_ = [d for d in want if d != 1]
    if a_ != b_:
        return ('reshape', tuple(dterm(d) for d in want))
    # only unit dimensions appear or vanish
    if tuple(want) == tuple(s):
        return None
    if not s or len(b_) == 0:
        return ('reshape', 'one')
    return ('reshape', 'unit%s' % (tuple(i for i, d in enumerate(want) if d == 1),))


def _reduce_method(name):
    def f(I, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if initial is not None or where is not True:
            raise Undecided('%s(initial, where)' % name)
        return red(I, name, a, axis, dtype, out, keepdims)
    return f


def red(I, name, a, axis=None, dtype=None, out=None, keepdims=False, ddof=0):
    if out is not None and isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    r = reduction(I, name, a, axis, dtype, out, keepdims, ddof)
    if out is not None and isinstance(out, AArr) and out.cls is not NDARRAY and name in (
            'sum', 'prod', 'max', 'min', 'any', 'all', 'mean'):
        # ufunc.reduce wraps the output array
        return I.call(I.special(out, '__array_wrap__'), [out, None, False])
    return r


def _array_methods(cls):
    def meth(name):
        return _meth(cls, name)

    for n in ('sum', 'prod', 'any', 'all', 'mean'):
        meth(n)(_reduce_method(n))
    for n in ('max', 'min'):
        meth(n)(lambda I, a, axis=None, out=None, keepdims=False, initial=None, where=True, n=n:
                _reduce_method(n)(I, a, axis, None, out, keepdims, initial, where))
    for n in ('argmax', 'argmin'):
        meth(n)(lambda I, a, axis=None, out=None, keepdims=False, n=n: red(I, n, a, axis, None, out, keepdims))
    for n in ('var', 'std'):
        meth(n)(lambda I, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None,
                correction=None, n=n: red(I, n, a, axis, dtype, out, keepdims, ddof))

    def ptp(I, a):
        raise I.exc('AttributeError', '`ptp` was removed from the ndarray class in NumPy 2.0.')
    _prop(cls, 'ptp', ptp)

    @meth('copy')
    def copy(I, a, order='C'):
        return laid(mkcopy(I, a), a, _order(I, order))

    @meth('astype')
    def astype(I, a, dtype, order='K', casting='unsafe', subok=True, copy=True):
        r = astype_(I, a, dtype, casting, subok, copy)
        return laid(r, a) if isinstance(r, AArr) and r.buf is not a.buf else r

    def astype_(I, a, dtype, casting='unsafe', subok=True, copy=True):
        d = to_dtype(I, dtype)
        if not can_cast(a.dtype, d, casting):
            raise I.exc('TypeError', 'Cannot cast array data according to the rule %r' % casting)
        if d is a.dtype and copy is False and (subok is True or a.cls is NDARRAY):
            return a
        if d.kind in 'OUS' and a.dtype.kind not in 'OUS':
            raise Undecided('conversion to objects or strings')
        t = cast_t(val(a), a.dtype, d)
        c = a.cls if I.truth(subok) or is_generic(a) else NDARRAY
        if is_generic(a):
            return ret0(t, (), d)
        return mkcopy(I, a, t, dtype=d, cls=c)

    @meth('view')
    def view(I, a, dtype=None, type=None):
        if isinstance(dtype, AClass) and type is None and (dtype.issub(NDARRAY)):
            dtype, type = None, dtype
        if type is not None and not (isinstance(type, AClass) and type.issub(NDARRAY)):
            raise I.exc('ValueError', 'Type must be a sub-type of ndarray type')
        if dtype is not None:
            d = to_dtype(I, dtype)
            if d is not a.dtype:
                raise Undecided('view with another dtype')
        if is_generic(a):
            return a if type is None else mkview(I, a, type)
        return mkview(I, a, type)

    @meth('fill')
    def fill(I, a, v):
        if not a.writeable:
            raise I.exc('ValueError', 'assignment destination is read-only')
        x = as_array(I, v)
        if x.dtype.kind in 'OUS' and a.dtype.kind not in 'OUS':
            raise I.exc('TypeError', 'could not convert value')
        if shape_of(x):
            raise I.exc('ValueError', 'setting an array element with a sequence.')
        write(I, a, cast_t(val(x), x.dtype, a.dtype))

    @meth('clip')
    def clip(I, a, min=None, max=None, out=None, **kw):
        if min is None and max is None:
            return ufunc_call(I, UF['positive'], [a] + ([out] if out is not None else []), kw)
        if min is None:
            return ufunc_call(I, UF['minimum'], [a, max] + ([out] if out is not None else []), kw)
        if max is None:
            return ufunc_call(I, UF['maximum'], [a, min] + ([out] if out is not None else []), kw)
        return ufunc_call(I, UF['clip'], [a, min, max] + ([out] if out is not None else []), kw)

    def axis_out(I, a, t, dt, shape, out):
        if out is not None:
            return put_out(I, out, t, dt, shape)
        if a.cls is NDARRAY or is_generic(a):
            return ret0(t, shape, dt)
        return mkcopy(I, a, t, shape, dt)

    @meth('round')
    def round_(I, a, decimals=0, out=None):
        d = B.concrete_index(I, decimals)
        t = val(a)
        if a.dtype.kind in 'fc':
            t = T.fn('round', t, T.const(d))
        elif d < 0:
            raise Undecided('rounding integers')
        if out is not None:
            return put_out(I, out, t, a.dtype, shape_of(a))
        if is_generic(a):
            return scalar(t, a.dtype)
        if a.cls is NDARRAY:
            return ret0(t, shape_of(a), a.dtype)
        # round applies ufuncs
        if d == 0:
            return ufunc_call(I, UF['rint'], [a], {})
        raise Undecided('round of an array subclass')

    def _cum(name):
        def f(I, a, axis=None, dtype=None, out=None):
            s = shape_of(a)
            if axis is None:
                key, shape = 'all', (count(s) if s else 1,)
                shape = (dim(shape[0]),)
            else:
                ax = norm_axis(I, axis, len(s))
                key, shape = (ax if ax is not None else 'all'), s if s else (1,)
            if len(s) <= 1:
                key = 'all'
            if name == 'cumsum':
                t = linear('cumsum', val(a), key) if not T.is_scalar(val(a)) else T.mul(val(a), T.fn('cumsum', T.sym('ones', False), key))
            else:
                t = T.fn('cumprod', val(a), key)
            dt = to_dtype(I, dtype) if dtype is not None else (I8 if a.dtype.kind in 'bi' else a.dtype)
            return axis_out(I, a, t, dt, shape, out)
        return f
    meth('cumsum')(_cum('cumsum'))
    meth('cumprod')(_cum('cumprod'))

    @meth('trace')
    def trace(I, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        s = shape_of(a)
        if len(s) < 2:
            raise I.exc('ValueError', 'diag requires an array of at least two dimensions')
        x, y = (B.concrete_index(I, v) for v in (axis1, axis2))
        for v in (x, y):
            if not -len(s) <= v < len(s):
                raise I.exc(AXIS_ERROR, 'axis out of bounds')
        x, y = x % len(s), y % len(s)
        if x == y:
            raise I.exc('ValueError', 'axis1 and axis2 cannot be the same')
        t = linear('trace', val(a), key_of(I, offset), x, y)
        dt = to_dtype(I, dtype) if dtype is not None else a.dtype
        shape = tuple(d for i, d in enumerate(s) if i not in (x, y))
        if a.cls is not NDARRAY:
            raise Undecided('trace of an array subclass')
        return axis_out(I, a, t, dt, shape, out)

    @meth('squeeze')
    def squeeze(I, a, axis=None):
        s = shape_of(a)
        if is_generic(a):
            return a
        if axis is None:
            ax = []
            for i, d in enumerate(s):
                if d == 1 or isinstance(d, T.Term) and paths.truth(T.fn('eq', d, T.ONE)):
                    ax.append(i)
        else:
            ax = list(norm_axis(I, axis, len(s)) or ())
            for i in ax:
                d = dim(s[i])
                if d != 1 and not (isinstance(d, T.Term) and paths.truth(T.fn('eq', d, T.ONE))):
                    raise I.exc('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
        if not ax:
            return mkview(I, a)
        want = [d for i, d in enumerate(s) if i not in ax]
        return mkview(I, a, sel=_reshape_sel(shape_of(a), want), shape=want)

    @meth('put')
    def put(I, a, indices, values, mode='raise'):
        if not a.writeable:
            raise I.exc('ValueError', 'assignment destination is read-only')
        v = as_array(I, values)
        if v.dtype.kind in 'OUS':
            raise I.exc('TypeError', 'could not convert value')
        k = as_array(I, indices)
        if k.dtype.kind not in 'iub':
            raise I.exc('TypeError', 'Cannot cast array data to int64 according to the rule "safe"')
        idx = val(k)
        t = val(v)
        if shape_of(v) and not T.is_scalar(t):
            e = element(t, 0)
            if T.is_const_eq(count(shape_of(v)), 1) and e is not None:
                t = e
        if idx.op == 'fn' and idx.args[0] == 'arr' and len(idx.args) == 2:
            idx = idx.args[1]
        if not (T.is_scalar(t) or T.is_const_eq(count(shape_of(v)), 1)) or idx.op != 'const':
            sel = ('put', idx, mode)
        elif len(a.shape) == 1:
            i = int(idx.args[0])
            d = dim(a.shape[0])
            if isinstance(d, int):
                if not -d <= i < d and mode == 'raise':
                    raise I.exc('IndexError', 'index out of bounds')
                i = i % d
            sel = ('sel', (('i', i),))
        else:
            sel = ('put', idx, mode)
        a.buf.t = update(a.buf.t, a.path + (sel,), cast_t(t, v.dtype, a.dtype))
        a.buf.writes += 1

    @meth('take')
    def take(I, a, indices, axis=None, out=None, mode='raise'):
        k = as_array(I, indices)
        s = shape_of(a)
        ks = val(k)
        if mode not in ('raise', 'wrap', 'clip'):
            raise I.exc('ValueError', "clipmode must be one of 'clip', 'raise', or 'wrap'")
        # positions outside: known ones are put inside, of unknown ones the rule is kept
        els = [ks] if ks.op == 'const' else list(ks.args[1:]) if ks.op == 'fn' and ks.args[0] == 'arr' else None
        d = dim(s[norm_axis(I, axis, len(s))[0]]) if axis is not None and s else dim(s[0]) if len(s) == 1 else None
        if d is None and axis is None and all(isinstance(dim(x), int) for x in s):
            d = math.prod(dim(x) for x in s)
        rule = ()
        if els is not None and isinstance(d, int) and all(e.op == 'const' for e in els):
            xs = [int(e.args[0]) for e in els]
            if mode == 'raise' and any(not -d <= x < d for x in xs):
                raise I.exc('IndexError', 'index out of bounds')
            if mode != 'raise' and d and any(not 0 <= x < d for x in xs):
                xs = [x % d if mode == 'wrap' else min(max(x, 0), d - 1) for x in xs]
                ks = T.const(xs[0]) if ks.op == 'const' else T.fn('arr', *[T.const(x) for x in xs])
        elif mode != 'raise':
            rule = (mode,)
        t = linear('take', val(a), ks, axis_key(I, a, axis), *rule)
        if axis is None or len(s) == 1:
            shape = shape_of(k)
            if not shape and ks.op == 'const' and not rule:
                t = select(val(a), ('sel', (('i', int(ks.args[0])),))) if len(s) == 1 else t
        else:
            ax = norm_axis(I, axis, len(s))[0]
            shape = s[:ax] + shape_of(k) + s[ax + 1:]
        if not shape and out is None:
            return ret0(t, shape, a.dtype)      # (a plain number, whatever the class)
        return axis_out(I, a, t, a.dtype, shape, out)

    @meth('compress')
    def compress(I, a, condition, axis=None, out=None):
        k = as_array(I, condition)
        t = val(k)
        if len(shape_of(k)) != 1 or not isinstance(shape_of(k)[0], int):
            raise Undecided('condition of compress')
        els = [t] if T.is_scalar(t) else [element(t, i) for i in range(shape_of(k)[0])]
        if T.is_scalar(t):
            els = els*shape_of(k)[0]
        if any(e is None or e.op != 'const' for e in els):
            raise Undecided('condition of compress')
        return take(I, a, tuple(i for i, e in enumerate(els) if e.args[0]), axis, out)

    @meth('argsort')
    def argsort(I, a, axis=-1, kind=None, order=None, stable=None):
        s = shape_of(a)
        ax = None if axis is None else norm_axis(I, axis, max(len(s), 1))
        t = T.fn('argsort', T.positive_factor(val(a))[1], 'all' if axis is None else ax)
        if a.cls is not NDARRAY and not is_generic(a):
            return mkcopy(I, a, t, s, I8)
        return ret0(t, s if axis is not None else (dim(count(s)),), I8)

    def arg_partition(I, a, kth, axis):
        s = shape_of(a)
        ax = None if axis is None else norm_axis(I, axis, max(len(s), 1))
        return T.fn('argpartition', T.positive_factor(val(a))[1], key_of(I, kth), 'all' if ax is None else ax), ax

    @meth('argpartition')
    def argpartition(I, a, kth, axis=-1, kind='introselect', order=None):
        s = shape_of(a)
        t, ax = arg_partition(I, a, kth, axis)
        if a.cls is not NDARRAY and not is_generic(a):
            return mkcopy(I, a, t, s, I8)
        return ret0(t, s if ax is not None else (dim(count(s)),), I8)

    @meth('partition')
    def partition(I, a, kth, axis=-1, kind='introselect', order=None):
        t, ax = arg_partition(I, a, kth, axis)
        write(I, a, linear('takealong', val(a), t, ax))

    @meth('sort')
    def sort(I, a, axis=-1, kind=None, order=None, stable=None):
        ax = norm_axis(I, axis, max(len(a.shape), 1))
        s, r = T.scalar_factor(val(a))
        write(I, a, T.mul(s, T.fn('sort', r, ax)))

    @meth('searchsorted')
    def searchsorted(I, a, v, side='left', sorter=None):
        x = as_array(I, v)
        if len(a.shape) != 1:
            raise I.exc('ValueError', 'object too deep for desired array')
        s, r = T.positive_factor(val(a))
        t = T.fn('searchsorted', r, T.div(val(x), s), side if isinstance(side, str) else 'left', key_of(I, sorter))
        return ret0(t, shape_of(x), I8)

    @meth('nonzero')
    def nonzero(I, a):
        r = T.positive_factor(val(a))[1]
        n = max(len(a.shape), 1)
        if not a.shape:
            if a.cls is NDARRAY or is_generic(a):
                raise I.exc('ValueError', 'Calling nonzero on 0d arrays is not allowed.')
            raise Undecided('nonzero of a scalar')
        d = fresh_dim('nz', r)
        return tuple(plain(T.fn('nonzero', r, i), (d,), I8) for i in range(n))

    @meth('tolist')
    def tolist(I, a):
        return to_list(I, a)

    @meth('item')
    def item(I, a, *k):
        if not k:
            need_one(I, a, 'ValueError')
            return pynum(item_t(val(a), a), a.dtype)
        key = k[0] if len(k) == 1 else tuple(k)
        if isinstance(key, int) and len(a.shape) > 1:
            raise Undecided('flat item')
        x = nd_getitem(I, mkview(I, a, NDARRAY), key)
        return pynum(val(x), x.dtype)

    @meth('reshape')
    def reshape(I, a, *shape, order='C', copy=None):
        return _reshape(I, a, shape, follow(I, a, _order(I, order)))

    def in_memory(I, a, o):
        s = shape_of(a)
        return mkcopy(I, a, linear('reshape', val(a), 'flat' + o, layout(a)), (dim(count(s)),))

    def follow(I, a, o):
        """the order that follows the memory"""
        if o not in 'AK' or is_generic(a):
            return o
        l = layout(a)
        return l if isinstance(l, str) else 'C' if o == 'A' and len(a.shape) < 2 else o

    @meth('ravel')
    def ravel(I, a, order='C'):
        o = follow(I, a, _order(I, order))
        if len(a.shape) == 1:
            return mkview(I, a)
        if o in 'AK' and len(a.shape) > 1:
            return in_memory(I, a, o)
        return _reshape(I, a, (-1,), o)

    @meth('flatten')
    def flatten(I, a, order='C'):
        s = shape_of(a)
        o = follow(I, a, _order(I, order))
        if o in 'AK' and len(s) > 1:
            return in_memory(I, a, o)
        if o == 'F' and len(s) > 1:
            a = _transpose(I, a)
            s = shape_of(a)
        return mkcopy(I, a, flatten_t(val(a), s), (dim(count(s)) if s else 1,))

    @meth('transpose')
    def transpose(I, a, *axes):
        return _transpose(I, a, *axes)

    @meth('swapaxes')
    def swapaxes(I, a, x, y):
        n = len(a.shape)
        l = list(range(n))
        if not (-n <= x < n and -n <= y < n):
            raise I.exc(AXIS_ERROR, 'axis is out of bounds')
        l[x], l[y] = l[y], l[x]
        return _transpose(I, a, *l)

    @meth('diagonal')
    def diagonal(I, a, offset=0, axis1=0, axis2=1):
        s = shape_of(a)
        if len(s) < 2:
            raise I.exc('ValueError', 'diag requires an array of at least two dimensions')
        x, y = (B.concrete_index(I, v) for v in (axis1, axis2))
        for v in (x, y):
            if not -len(s) <= v < len(s):
                raise I.exc(AXIS_ERROR, 'axis out of bounds')
        x, y = x % len(s), y % len(s)
        if x == y:
            raise I.exc('ValueError', 'axis1 and axis2 cannot be the same')
        rest = tuple(d for i, d in enumerate(s) if i not in (x, y))
        k = B.to_host(I, offset)
        if isinstance(k, int) and isinstance(s[x], int) and isinstance(s[y], int):
            n = max(0, min(s[x], s[y] - k) if k >= 0 else min(s[x] + k, s[y]))
        else:
            n = fresh_dim('diag', (s, offset, x, y))
        v = mkview(I, a, sel=('diagonal', offset, x, y), shape=rest + (n,), writeable=False)
        return v

    @meth('repeat')
    def repeat(I, a, repeats, axis=None):
        k = as_array(I, repeats)
        s = shape_of(a)
        t = linear('repeat', val(a), val(k), axis_key(I, a, axis))
        if axis is None:
            shape = (dim(T.mul(count(s), val(k))) if not shape_of(k) else fresh_dim('rep', val(k)),)
        else:
            ax = norm_axis(I, axis, len(s))[0]
            shape = s[:ax] + (dim(T.mul(dterm(s[ax]), val(k))) if not shape_of(k) else fresh_dim('rep', val(k)),) + s[ax + 1:]
        return mkcopy(I, a, t, shape)

    @meth('conj')
    def conj(I, a, out=None):
        if a.dtype.kind != 'c' and out is None:
            return a
        return ufunc_call(I, UF['conjugate'], [a] + ([out] if out is not None else []), {})
    cls.ns['conjugate'] = NativeFn('conjugate', conj)

    @meth('dot')
    def dot(I, a, b, out=None):
        raise Undecided('dot')

    @meth('setflags')
    def setflags(I, a, write=None, align=None, uic=None):
        if write is not None:
            set_writeable(I, a, write)

    if cls is GENERIC:
        @meth('is_integer')
        def is_integer(I, a):
            if a.dtype.kind in 'iub':
                return True
            if a.dtype.kind != 'f':
                raise I.exc('AttributeError', 'is_integer')
            return I.call(I.getattr(pynum(val(a), a.dtype), 'is_integer'), [])

    names = NN.NDARRAY if cls is NDARRAY else NN.GENERIC
    for n in names:
        if n not in cls.ns and not (n.startswith('__') and n.endswith('__')):
            def bad(I, *a, n=n, **k):
                raise Undecided('ndarray.%s' % n)
            cls.ns[n] = NativeFn(n, bad)


def np_trapezoid(I, y, x=None, dx=1, axis=-1):
    """scipy.integrate.trapezoid / numpy.trapezoid on plain arrays"""
    y = base_array(I, y)
    if x is None:
        d = dx
    else:
        x = base_array(I, x)
        d = np_diff(I, x, 1, axis if len(x.shape) > 1 else -1)
        if len(x.shape) == 1:
            shape = [1] * len(y.shape)
            shape[axis] = d.shape[0]
            d = _reshape(I, d, tuple(pydim(s) for s in shape))
    n = len(y.shape)
    s1, s2 = [slice(None)] * n, [slice(None)] * n
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    t = I.binop('add', nd_getitem(I, y, tuple(s1)), nd_getitem(I, y, tuple(s2)))
    t = I.binop('truediv', I.binop('mul', d, t), SNum(T.TWO, 'float'))
    return red(I, 'sum', t, axis)


def np_diff(I, a, n=1, axis=-1, **kw):
    if kw:
        raise Undecided('diff arguments')
    k = B.concrete_index(I, n)
    if k == 0:
        return a
    if k < 0:
        raise I.exc('ValueError', 'order must be non-negative')
    a = any_array(I, a)
    nd = len(shape_of(a))
    if nd == 0:
        raise I.exc('ValueError', 'diff requires input that is at least one dimensional')
    ax = norm_axis(I, axis, nd)[0]
    s1, s2 = [slice(None)] * nd, [slice(None)] * nd
    s1[ax] = slice(1, None)
    s2[ax] = slice(None, -1)
    for _ in range(k):
        a = ufunc_call(I, UF['not_equal' if a.dtype.kind == 'b' else 'subtract'],
                       [I.getitem(a, tuple(s1)), I.getitem(a, tuple(s2))], {})
    return a


NN_reconstruct = nf('_reconstruct', lambda I, cls, shape, typ: I.call(NDARRAY.ns['__new__'], [cls, shape, 'b']))
NN_scalar = nf('scalar', lambda I, dt, raw: scalar(raw.v, dt))


def _npmodule(I, name, ns):
    m = AModule(name, ns)

    def fallback(n):
        if name == 'numpy.linalg' and n == 'norm':
            from .npmore import _norm
            return _norm[0]
        if n in NN.FUNCTIONS or n in NN.CLASSES or n in NN.OTHER or n in NN.MODULES:
            r = _npmodule(I, 'numpy.' + n, {}) if n in NN.MODULES else nf(n, _raiser('numpy.%s' % n))
            ns[n] = r
            return r
        if name != 'numpy':
            raise Undecided('%s.%s' % (name, n))
        raise I.exc('AttributeError', "module 'numpy' has no attribute %r" % n)
    m.fallback = fallback
    return m


def _raiser(name):
    def f(I, *a, **k):
        raise Undecided(name)
    return f


def _functions(I0, M):
    ns = {'__name__': 'numpy', '__version__': VERSION, 'ndarray': NDARRAY, 'generic': GENERIC, 'number': NUMBER,
          'integer': INTEGER, 'signedinteger': SIGNED, 'unsignedinteger': UNSIGNED, 'inexact': INEXACT,
          'floating': FLOATING, 'complexfloating': COMPLEXF, 'flexible': FLEXIBLE, 'character': CHARACTER,
          'dtype': DTYPE, 'ufunc': UFUNC, 'newaxis': None,
          'pi': SNum(T.const(math.pi), 'float'), 'e': SNum(T.const(math.e), 'float'),
          'inf': SNum(T.const(float('inf')), 'float'), 'nan': SNum(T.const(float('nan')), 'float'),
          'euler_gamma': SNum(T.const(0.5772156649015329), 'float'),
          'True_': scalar(T.ONE, BL), 'False_': scalar(T.ZERO, BL)}
    for n in DT:
        ns[n] = SCALAR[DT[n]]
    for a, b in (('bool_', 'bool'), ('int_', 'int64'), ('intp', 'int64'), ('double', 'float64'), ('single', 'float32'),
                 ('half', 'float16'), ('intc', 'int32'), ('long', 'int64'), ('longlong', 'int64'), ('short', 'int16'),
                 ('byte', 'int8'), ('ubyte', 'uint8'), ('uint', 'uint64'), ('cdouble', 'complex128'),
                 ('csingle', 'complex64'), ('object_', 'object_'), ('str_', 'str_'), ('bytes_', 'bytes_')):
        ns[a] = SCALAR[DT[b]]
    for a, (real, i, o) in NN.UFUNCS.items():
        ns[a] = UF[real]
    m = _npmodule(I0, 'numpy', ns)
    M['numpy'] = m

    def sub(name, d):
        s = _npmodule(I0, name, d)
        M[name] = s
        return s
    core = sub('numpy.core', {})
    pcore = sub('numpy._core', {})
    numeric = sub('numpy.core.numeric', ns)
    umath = sub('numpy.core.umath', ns)
    core.ns.update(numeric=numeric, umath=umath)
    pcore.ns.update(numeric=numeric, umath=umath)
    M['numpy._core.numeric'] = numeric
    M['numpy._core.umath'] = umath
    ns['core'] = core
    ns['_core'] = pcore
    typing = sub('numpy.typing', {'NDArray': B.OBJECT, 'ArrayLike': B.OBJECT, 'DTypeLike': B.OBJECT})
    ns['typing'] = typing
    exc = sub('numpy.exceptions', {'AxisError': AXIS_ERROR})
    ns['exceptions'] = exc

    def fn(name, *alias):
        def dec(f):
            x = nf(name, f)
            ns[name] = x
            for a in alias:
                ns[a] = x
            return f
        return dec

    # -------------------------------------------------------- construction
    fn('asarray')(lambda I, a, dtype=None, order=None, **k: base_array(I, a, None if dtype is None else to_dtype(I, dtype), k.get('copy')))
    fn('ascontiguousarray')(lambda I, a, dtype=None, **k: base_array(I, a, None if dtype is None else to_dtype(I, dtype)))
    fn('asanyarray')(lambda I, a, dtype=None, order=None, **k: any_array(I, a, None if dtype is None else to_dtype(I, dtype), k.get('copy')))

    @fn('array')
    def array(I, a, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
        d = None if dtype is None else to_dtype(I, dtype)
        f = any_array if I.truth(subok) else base_array
        if copy is None or copy is False:
            r = f(I, a, d)
            if copy is False and r is not a and not (isinstance(r, AArr) and isinstance(a, AArr) and r.buf is a.buf):
                raise I.exc('ValueError', 'Unable to avoid copy while creating an array as requested.')
        else:
            r = f(I, a, d, True)
        n = B.concrete_index(I, ndmin)
        if len(r.shape) < n:
            r = mkview(I, r, sel=('reshape', 'ndmin'), shape=(1,) * (n - len(r.shape)) + tuple(r.shape))
        return r

    @fn('copy')
    def np_copy(I, a, order='K', subok=False):
        return (any_array if I.truth(subok) else base_array)(I, a, None, True)

    def filled(t):
        def f(I, shape, dtype=None, order='C', **k):
            return plain(t, parse_shape(I, shape), to_dtype(I, dtype))
        return f
    fn('zeros')(filled(T.ZERO))
    fn('ones')(filled(T.ONE))

    @fn('empty')
    def empty(I, shape, dtype=None, order='C', **k):
        d = fresh_dim()
        return plain(T.sym('uninit' + d.args[0]), parse_shape(I, shape), to_dtype(I, dtype))

    @fn('full')
    def full(I, shape, fill_value, dtype=None, order='C', **k):
        v = as_array(I, fill_value)
        d = v.dtype if dtype is None else to_dtype(I, dtype)
        return plain(cast_t(val(v), v.dtype, d), parse_shape(I, shape), d)

    def like(t):
        def f(I, a, *r, **k):
            return _like(I, a, t, *r, **k)
        return f

    def _like(I, a, t, dtype=None, order='K', subok=True, shape=None, **k):
        a = any_array(I, a)
        d = a.dtype if dtype is None else to_dtype(I, dtype)
        s = None if shape is None else parse_shape(I, shape)
        if is_generic(a):
            return plain(t, s or (), d)
        r = mkcopy(I, a, t, s, d, a.cls if I.truth(subok) else NDARRAY)
        return laid(r, a, _order(I, order)) if s is None else r
    fn('zeros_like')(like(T.ZERO))
    fn('ones_like')(like(T.ONE))
    fn('empty_like')(lambda I, a, *r, **k: _like(I, a, T.sym('uninit' + fresh_dim().args[0]), *r, **k))

    @fn('full_like')
    def full_like(I, a, fill_value, *r, **k):
        v = as_array(I, fill_value)
        x = any_array(I, a)
        d = k.get('dtype', r[0] if r else None)
        d = x.dtype if d is None else to_dtype(I, d)
        return _like(I, a, cast_t(val(v), v.dtype, d), *r, **k)

    @fn('arange')
    def arange(I, *a, dtype=None, **k):
        c = [B.to_host(I, x) for x in a]
        fl = any(isinstance(x, float) for x in c) or dtype is not None and not isinstance(to_dtype(I, dtype), type(None)) and to_dtype(I, dtype) != I8
        if not all(isinstance(x, int) or isinstance(x, float) and x == int(x) for x in c):
            raise Undecided('arange')
        r = list(range(*[int(x) for x in c]))
        if fl:
            d = to_dtype(I, dtype) if dtype is not None else F8
            x = seq_array(I, r, r)
            return plain(cast_t(val(x), I8, d) if r else val(x), (len(r),), d)
        x = seq_array(I, r, r)
        return x if r else plain(val(x), (0,), I8)

    @fn('isscalar')
    def isscalar(I, x):
        return is_pynum(x) or isinstance(x, (str, OpaqueStr, bytes)) or isinstance(x, AArr) and is_generic(x) or \
            isinstance(x, Obj) and x.cls.name in ('Fraction', 'Decimal')

    @fn('result_type')
    def result_type(I, *args):
        items = []
        for x in args:
            if isinstance(x, (ADtype, AClass)) or isinstance(x, str):
                items.append((to_dtype(I, x), False))
            elif is_pynum(x):
                items.append((py_dtype(x), True))
            else:
                items.append((as_array(I, x).dtype, False))
        if not items:
            raise I.exc('ValueError', 'at least one array or dtype is required')
        return result_dtype(items)

    @fn('promote_types')
    def promote_types(I, a, b):
        return promote2(to_dtype(I, a), to_dtype(I, b))

    @fn('can_cast')
    def np_can_cast(I, a, b, casting='safe'):
        a = a.dtype if isinstance(a, AArr) else to_dtype(I, a)
        return can_cast(a, to_dtype(I, b), casting)

    def issubdtype(I, a, b):
        def ty(x):
            if isinstance(x, AClass) and x.issub(GENERIC):
                return x
            return SCALAR[to_dtype(I, x)]
        return ty(a).issub(ty(b))
    fn('issubdtype')(issubdtype)

    def shape_arr(I, a):
        return a if isinstance(a, AArr) else as_array(I, a)
    fn('shape')(lambda I, a: tuple(pydim(d) for d in shape_of(shape_arr(I, a))))
    fn('ndim')(lambda I, a: I.getattr(shape_arr(I, a), 'ndim'))

    @fn('size')
    def size(I, a, axis=None):
        s = shape_of(shape_arr(I, a))
        if axis is None:
            return pydim(count(s))
        i = B.concrete_index(I, axis)
        if not -len(s) <= i < len(s):
            raise I.exc('IndexError', 'tuple index out of range')
        return pydim(s[i])

    @fn('iscomplexobj')
    def iscomplexobj(I, a):
        return shape_arr(I, a).dtype.kind == 'c'
    fn('isrealobj')(lambda I, a: not iscomplexobj(I, a))
    fn('shares_memory')(lambda I, a, b, *r: shape_arr(I, a).buf is shape_arr(I, b).buf)
    fn('may_share_memory')(lambda I, a, b, *r: shape_arr(I, a).buf is shape_arr(I, b).buf)
    fn('broadcast_shapes')(lambda I, *s: tuple(pydim(d) for d in broadcast(I, [parse_shape(I, x) for x in s])))

    @fn('broadcast_to')
    def broadcast_to(I, a, shape, subok=False):
        x = any_array(I, a) if I.truth(subok) else base_array(I, a)
        s = parse_shape(I, shape)
        r = broadcast(I, [shape_of(x), s])
        if len(r) != len(s):
            raise I.exc('ValueError', 'operands could not be broadcast together')
        return mkview(I, x, shape=s, writeable=False)

    @fn('copyto')
    def copyto(I, dst, src, casting='same_kind', where=True):
        if where is not True:
            raise Undecided('copyto(where)')
        nd_setitem(I, dst if dst.cls is NDARRAY else mkview(I, dst, NDARRAY), Ellipsis, src)

    # ------------------------------------------- functions that call methods
    def method_of(I, a, name):
        if isinstance(a, AArr) and a.cls is NDARRAY:
            return None
        return I.getattr(a, name, None) if isinstance(a, (AArr, Obj)) else None

    def dispatch(name, method, native=None):
        """_wrapreduction and the like"""
        def f(I, a, axis=None, dtype=None, out=None, keepdims=None, initial=None, where=None):
            m = method_of(I, a, method)
            if initial is not None or where is not None:
                raise Undecided('%s(initial, where)' % name)
            kw = {} if keepdims is None else {'keepdims': keepdims}
            if m is not None:
                if dtype is not None:
                    return I.call(m, [], dict(kw, axis=axis, dtype=dtype, out=out))
                return I.call(m, [], dict(kw, axis=axis, out=out))
            return red(I, method, as_array(I, a), axis, dtype, out, keepdims or False)
        return f
    fn('sum')(dispatch('sum', 'sum'))
    fn('prod')(dispatch('prod', 'prod'))
    for n, k, al in (('max', 'max', 'amax'), ('min', 'min', 'amin')):
        g = dispatch(n, k)
        fn(n, al)(lambda I, a, axis=None, out=None, keepdims=None, initial=None, where=None, g=g:
                  g(I, a, axis, None, out, keepdims, initial, where))
    for n in ('any', 'all'):
        g = dispatch(n, n)
        fn(n)(lambda I, a, axis=None, out=None, keepdims=None, where=None, g=g:
              g(I, a, axis, None, out, keepdims, None, where))

    @fn('mean')
    def mean(I, a, axis=None, dtype=None, out=None, keepdims=None, where=None):
        kw = {} if keepdims is None else {'keepdims': keepdims}
        m = method_of(I, a, 'mean')
        if m is not None:
            return I.call(m, [], dict(kw, axis=axis, dtype=dtype, out=out))
        return red(I, 'mean', as_array(I, a), axis, dtype, out, keepdims or False)

    for n in ('std', 'var'):
        def stdvar(I, a, axis=None, dtype=None, out=None, ddof=0, keepdims=None, where=None, mean=None,
                   correction=None, n=n):
            kw = {} if keepdims is None else {'keepdims': keepdims}
            m = method_of(I, a, n)
            if m is not None:
                return I.call(m, [], dict(kw, axis=axis, dtype=dtype, out=out, ddof=ddof))
            return red(I, n, as_array(I, a), axis, dtype, out, keepdims or False, ddof)
        fn(n)(stdvar)

    def wrapfunc(name, method, build):
        def f(I, a, *args, **kw):
            pos, k = build(I, *args, **kw)
            m = I.getattr(a, method, None) if isinstance(a, (AArr, Obj)) else None
            if m is None:
                m = I.getattr(as_array(I, a), method)
                return I.call(m, pos, k)
            try:
                return I.call(m, pos, k)
            except PyRaise as e:
                if not e.exc.cls.issub(B.EXC['TypeError']) or not isinstance(a, AArr) or a.cls is NDARRAY:
                    raise
                # _wrapit
                r = I.call(I.getattr(base_array(I, a), method), pos, k)
                if is_generic(a):
                    return r
                return I.call(I.special(a, '__array_wrap__'), [base_array(I, r), None, False])
        return fn(name)(f)
    wrapfunc('cumsum', 'cumsum', lambda I, axis=None, dtype=None, out=None: ([], dict(axis=axis, dtype=dtype, out=out)))
    wrapfunc('cumprod', 'cumprod', lambda I, axis=None, dtype=None, out=None: ([], dict(axis=axis, dtype=dtype, out=out)))

    wrapfunc('argpartition', 'argpartition', lambda I, kth, axis=-1, kind='introselect', order=None: ([kth], dict(axis=axis, kind=kind, order=order)))

    @fn('partition')
    def np_partition(I, a, kth, axis=-1, kind='introselect', order=None):
        if axis is None:
            r = I.call(I.getattr(any_array(I, a), 'flatten'), [], {})
            axis = -1
        else:
            r = I.call(I.getattr(any_array(I, a), 'copy'), [], {'order': 'K'})
        I.call(I.getattr(r, 'partition'), [kth], {'axis': axis, 'kind': kind, 'order': order})
        return r

    @fn('sort')
    def np_sort(I, a, axis=-1, kind=None, order=None, stable=None):
        if axis is None:
            r = I.call(I.getattr(any_array(I, a), 'flatten'), [], {})
            axis = -1
        else:
            r = I.call(I.getattr(any_array(I, a), 'copy'), [], {'order': 'K'})
        I.call(I.getattr(r, 'sort'), [], {'axis': axis, 'kind': kind, 'order': order, 'stable': stable})
        return r

    @fn('diagonal')
    def np_diagonal(I, a, offset=0, axis1=0, axis2=1):
        return I.call(I.getattr(any_array(I, a), 'diagonal'), [], {'offset': offset, 'axis1': axis1, 'axis2': axis2})

    def b_arg(I, axis=None, out=None, keepdims=None):
        return [], dict(axis=axis, out=out, **({} if keepdims is None else {'keepdims': keepdims}))
    wrapfunc('argmax', 'argmax', b_arg)
    wrapfunc('argmin', 'argmin', b_arg)
    wrapfunc('clip', 'clip', lambda I, a_min=None, a_max=None, out=None, **kw: ([a_min, a_max], dict(kw, out=out)))
    wrapfunc('round', 'round', lambda I, decimals=0, out=None: ([], dict(decimals=decimals, out=out)))
    ns['around'] = nf('around', lambda I, a, decimals=0, out=None: I.call(ns['round'], [a, decimals], {'out': out}))
    wrapfunc('argsort', 'argsort', lambda I, axis=-1, kind=None, order=None, stable=None:
             ([], dict(axis=axis, kind=kind, order=order, stable=stable)))
    wrapfunc('searchsorted', 'searchsorted', lambda I, v, side='left', sorter=None:
             ([v], dict(side=side, sorter=sorter)))
    wrapfunc('take', 'take', lambda I, i, axis=None, out=None, mode='raise': ([i], dict(axis=axis, out=out, mode=mode)))

    @fn('compress')
    def compress(I, condition, a, axis=None, out=None):
        return I.call(I.getattr(any_array(I, a), 'compress'), [condition], {'axis': axis, 'out': out})

    wrapfunc('repeat', 'repeat', lambda I, r, axis=None: ([r], dict(axis=axis)))
    wrapfunc('reshape', 'reshape', lambda I, shape=None, order='C', **k: ([shape], dict(order=order)))
    wrapfunc('transpose', 'transpose', lambda I, axes=None: ([] if axes is None else [axes], {}))
    wrapfunc('swapaxes', 'swapaxes', lambda I, a1, a2: ([a1, a2], {}))
    wrapfunc('put', 'put', lambda I, i, v, mode='raise': ([i, v], dict(mode=mode)))
    wrapfunc('nonzero', 'nonzero', lambda I: ([], {}))
    wrapfunc('ravel', 'ravel', lambda I, order='C': ([], {'order': order}))

    @fn('ptp')
    def ptp(I, a, axis=None, out=None, keepdims=None):
        if not (isinstance(a, AArr) and a.cls is NDARRAY):
            m = I.getattr(a, 'ptp', None) if isinstance(a, (AArr, Obj)) else None
            if m is not None and not isinstance(m, BoundMethod) or isinstance(m, BoundMethod) and isinstance(m.func, AFunc):
                return I.call(m, [], {'axis': axis, 'out': out, **({} if keepdims is None else {'keepdims': keepdims})})
        return red(I, 'ptp', plainly(I, a), axis, None, out, keepdims or False)

    @fn('trace')
    def trace(I, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return I.call(I.getattr(any_array(I, a), 'trace'), [],
                      dict(offset=offset, axis1=axis1, axis2=axis2, dtype=dtype, out=out))

    @fn('flip')
    def flip(I, m, axis=None):
        x = any_array(I, m)
        n = len(shape_of(x))
        ax = range(n) if axis is None else norm_axis(I, axis, n)
        return I.getitem(x, tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(n)))

    @fn('squeeze')
    def squeeze(I, a, axis=None):
        m = I.getattr(a if isinstance(a, AArr) else as_array(I, a), 'squeeze')
        return I.call(m, [], {} if axis is None else {'axis': axis})

    # ----------------------------------------------------------- nan variants
    def nan_red(name, kind, has_dtype=False):
        def f(I, a, axis=None, *r, **kw):
            names = (['dtype'] if has_dtype else []) + ['out'] + (['ddof'] if kind in ('nanvar', 'nanstd') else []) + ['keepdims']
            if len(r) > len(names):
                raise I.exc('TypeError', '%s() takes too many arguments' % name)
            d = dict(zip(names, r))
            for k, v in kw.items():
                if k not in names or k in d:
                    if k in ('initial', 'where', 'mean', 'correction'):
                        raise Undecided('%s(%s)' % (name, k))
                    raise I.exc('TypeError', '%s() got an unexpected keyword argument %r' % (name, k))
                d[k] = v
            return red(I, kind, plainly(I, a), axis, d.get('dtype'), d.get('out'), d.get('keepdims') or False, d.get('ddof', 0))
        fn(name)(f)
    nan_red('nansum', 'nansum', True)
    nan_red('nanmean', 'nanmean', True)
    nan_red('nanvar', 'nanvar', True)
    nan_red('nanstd', 'nanstd', True)
    for n in ('nanmax', 'nanmin', 'nanargmax', 'nanargmin'):
        nan_red(n, n)

    @fn('nan_to_num')
    def nan_to_num(I, a, copy=True, nan=0, posinf=None, neginf=None):
        x = any_array(I, a)
        if x.cls is not NDARRAY and not is_generic(x):
            raise Undecided('NumPy function on an array subclass')
        t = val(x)
        if not T.is_scalar(t):
            t = linear('nn', t)
        if is_generic(x):
            return scalar(t, x.dtype)
        if copy is False:
            write(I, x, t)
            return x
        return mkcopy(I, x, t)

    # --------------------------------------------------------- calculus etc.
    fn('diff')(np_diff)
    fn('trapezoid')(lambda I, y, x=None, dx=1, axis=-1: np_trapezoid(I, plainly(I, y), x, dx, axis))

    @fn('ediff1d')
    def ediff1d(I, ary, to_end=None, to_begin=None):
        a = any_array(I, ary)
        f = I.call(I.getattr(a, 'ravel'), [])
        ends = []
        for x in (to_begin, to_end):
            if x is None:
                continue
            if a.cls is not NDARRAY:
                raise Undecided('ediff1d with end values')
            y = as_array(I, x)
            if not can_cast(y.dtype, a.dtype):
                raise I.exc('TypeError', 'dtype of `to_begin` must be compatible with input `ary`')
            ends.append(y)
        r = ufunc_call(I, UF['subtract'], [I.getitem(f, slice(1, None)), I.getitem(f, slice(None, -1))], {})
        if not ends:
            return r
        if all(isinstance(d, int) for x in [r] + ends for d in shape_of(x)):
            l = [I.call(I.getattr(as_array(I, x), 'ravel'), []) for x in (to_begin, r, to_end) if x is not None]
            return I.call(ns['concatenate'], [tuple(l)], {'dtype': r.dtype, 'casting': 'unsafe'})
        parts = tuple(('x' if e is None else 'e', val(as_array(I, e)) if e is not None else None) for e in (to_begin, to_end))
        t = T.fn('ediff', val(r), *[val(as_array(I, e)) if e is not None else 'none' for e in (to_begin, to_end)])
        s, q = joint_factor([val(r)] + [val(e) for e in ends])
        if s is not T.ONE:
            it = iter(q)
            l = [next(it)] + [next(it) if e is not None else 'none' for e in (to_begin, to_end)]
            t = T.mul(s, T.fn('ediff', *l))
        return plain(t, (fresh_dim('ediff', (shape_of(r), to_begin is None or shape_of(as_array(I, to_begin)), to_end is None or shape_of(as_array(I, to_end)))),), r.dtype)

    def joint_factor(ts):
        s, _ = T.positive_factor(ts[0])
        return s, [T.div(t, s) for t in ts]

    @fn('gradient')
    def gradient(I, f, *spacing, axis=None, edge_order=1):
        a = plainly(I, f)
        nd = len(shape_of(a))
        axes = tuple(range(nd)) if axis is None else norm_axis(I, axis, nd)
        n = len(spacing)
        if n not in (0, 1, len(axes)):
            raise I.exc('TypeError', 'invalid number of arguments')
        sp = list(spacing) * (len(axes) if n == 1 else 1) if n else [1] * len(axes)
        if nd == 0:
            raise I.exc('ValueError', 'gradient of a scalar')
        out = []
        for i, ax in enumerate(axes):
            d = sp[i]
            x = plainly(I, d)
            if not shape_of(x):
                t = T.div(linear('gradient', val(a), ax, edge_order), val(x))
            else:
                if n == 1 and len(axes) > 1 and False:
                    pass
                if len(shape_of(x)) != 1:
                    raise I.exc('ValueError', 'distances must be either scalars or 1d')
                s, r = T.scalar_factor(val(x), True)
                t = T.div(linear('gradientx', val(a), r, ax, edge_order), s)
            out.append(plain(t, shape_of(a), F8 if a.dtype.kind in 'iub' else a.dtype))
        return out[0] if len(out) == 1 else tuple(out)
    T.LINEAR.add('gradientx')

    @fn('cross')
    def cross(I, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        x, y = base_array(I, a), base_array(I, b)
        if axis is not None:
            axisa = axisb = axisc = axis
        s1, r1 = T.scalar_factor(val(x), True)
        s2, r2 = T.scalar_factor(val(y), True)
        sx, sy = shape_of(x), shape_of(y)
        if not sx or not sy:
            raise I.exc('ValueError', 'At least one array has zero dimension')
        ia, ib = norm_axis(I, axisa, len(sx))[0], norm_axis(I, axisb, len(sy))[0]
        for d in (sx[ia], sy[ib]):
            if isinstance(d, int) and d not in (2, 3):
                raise I.exc('ValueError', 'incompatible dimensions for cross product (dimension must be 2 or 3)')
            if not isinstance(d, int):
                raise Undecided('cross product of vectors of unknown length')
        shape = tuple(broadcast(I, [sx[:ia] + sx[ia + 1:], sy[:ib] + sy[ib + 1:]]))
        ic = None
        if not sx[ia] == sy[ib] == 2:
            ic = norm_axis(I, axisc, len(shape) + 1)[0]
            shape = shape[:ic] + (3,) + shape[ic:]
        t = T.mul(s1, s2, T.fn('cross', r1, r2, ia - len(sx), ib - len(sy), None if ic is None else ic - len(shape)))
        return ret0(t, shape, result_dtype([(x.dtype, False), (y.dtype, False)]))

    @fn('unwrap')
    def unwrap(I, p, discont=None, axis=-1, period=None):
        x = plainly(I, p)
        d = None if discont is None else val(plainly(I, discont))
        per = None if period is None else val(plainly(I, period))
        pi2 = T.const(2 * T.Fraction(repr(math.pi)))
        if d is None:
            d = T.mul(T.HALF, per or pi2)
        k = T.div(per, pi2) if per is not None else T.ONE      # (always with the period 2 pi, and a jump of at least half of that)
        ax = norm_axis(I, axis, len(shape_of(x)))[0] - len(shape_of(x))
        t = T.mul(k, T.fn('unwrap', T.div(val(x), k), ufunc_term('maximum', [T.div(d, k), T.div(pi2, T.TWO)]), ax))
        return ret0(t, shape_of(x), x.dtype if x.dtype.kind == 'f' else F8)

    # -------------------------------------------------------------- indexing
    @fn('expand_dims')
    def expand_dims(I, a, axis):
        x = any_array(I, a)
        n = len(shape_of(x)) + 1
        ax = B.concrete_index(I, axis)
        if not -n <= ax < n:
            raise I.exc(AXIS_ERROR, 'axis out of bounds')
        ax %= n
        s = list(shape_of(x))
        s.insert(ax, 1)
        if not isinstance(x.cls.lookup('reshape'), NativeFn):
            return I.call(I.getattr(x, 'reshape'), [tuple(pydim(d) for d in s)])
        return mkview(I, x, sel=('expand', (ax,)), shape=s)

    @fn('take_along_axis')
    def take_along_axis(I, a, indices, axis=-1):
        x = plainly(I, a)
        k = plainly(I, indices)
        t, i = val(x), val(k)
        ax = norm_axis(I, axis, len(shape_of(x))) if axis is not None else 'all'
        if i.op == 'fn' and i.args[0] == 'expand' and i.args[1].op == 'fn' and i.args[1].args[0] in _ARG \
                and i.args[2] == ax and i.args[1].args[2] in (ax, 'all'):
            r = T.is_scalar(t) and t or T.fn('expand', at(t, i.args[1]), ax)
            s, q = T.scalar_factor(at(t, i.args[1]), True) if not T.is_scalar(t) else (t, T.ONE)
            r = s if q is T.ONE else T.mul(s, T.fn('expand', q, ax))
        elif T.is_scalar(t):
            r = t
        elif i.op == 'fn' and i.args[0] == 'argsort' and i.args[1] is T.scalar_factor(t)[1] and \
                i.args[2] == ax:
            q, z = T.scalar_factor(t)
            r = T.mul(q, T.fn('sort', z, i.args[2]))
        else:
            r = linear('takealong', t, i, ax)
        return plain(r, shape_of(k), x.dtype)

    @fn('unravel_index')
    def unravel_index(I, indices, shape, order='C'):
        k = as_array(I, indices)
        s = parse_shape(I, shape)
        t = val(k)
        if len(s) == 1:
            return (k,)
        return tuple(ret0(T.fn('unravel', t, i, len(s)), shape_of(k), I8) for i in range(len(s)))

    @fn('fix')
    def fix(I, x, out=None):
        r = any_array(I, ufunc_call(I, UF['ceil'], [x] + ([out] if out is not None else []), {}))
        ufunc_call(I, UF['greater_equal'], [x, 0], {})
        src = any_array(I, x)
        if is_generic(r):
            return scalar(trunc_t(val(src)), r.dtype)
        r = ufunc_call(I, UF['floor'], [x, r], {})
        write(I, r, trunc_t(val(src)))
        return r

    fn('real')(lambda I, a: I.getattr(a if isinstance(a, AArr) else as_array(I, a), 'real'))
    fn('imag')(lambda I, a: I.getattr(a if isinstance(a, AArr) else as_array(I, a), 'imag'))

    def atleast(n):
        def f(I, a):
            x = any_array(I, a)
            s = shape_of(x)
            if len(s) >= n:
                return x
            if is_generic(x):
                x = plain(val(x), (), x.dtype)
            return mkview(I, x, sel=('reshape', 'ndmin') if s else None, shape=(1,) * (n - len(s)) + tuple(s))
        return f
    fn('atleast_1d')(atleast(1))
    fn('atleast_2d')(atleast(2))

    @fn('array_equal')
    def array_equal(I, a, b, equal_nan=False):
        x, y = base_array(I, a), base_array(I, b)
        if len(shape_of(x)) != len(shape_of(y)):
            return False
        for d, e in zip(shape_of(x), shape_of(y)):
            if d != e and (isinstance(d, int) and isinstance(e, int) or not paths.truth(T.fn('eq', dterm(d), dterm(e)))):
                return False
        return I.truth(reduction(I, 'all', ufunc_call(I, UF['equal'], [x, y], {})))

    err = AClass('errstate', (B.OBJECT,), {
        '__init__': NativeFn('__init__', lambda I, s, **k: None),
        '__enter__': NativeFn('__enter__', lambda I, s: s),
        '__exit__': NativeFn('__exit__', lambda I, s, *a: None)}, module='numpy')
    ns['errstate'] = err
    fn('seterr')(lambda I, **k: B.make_dict(I))
    from . import npmore
    npmore.extend(I0, ns, fn, plainly, nf)
