"""Abstract values of the interpreter."""
from . import term as T


class AClass:
    def __init__(self, name, bases, ns, module='builtins', meta=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = ns
        self.module = module
        self.mro = _c3(self)
        self.host = None        # host exception type / type for simple natives
        self.qualname = name
        self._cache = None

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<aclass %s>' % self.name


class _Missing:
    def __repr__(self):
        return '<missing>'

    def __bool__(self):
        return False


MISSING = _Missing()


def _c3(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return tuple(out)
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise TypeError('inconsistent mro')
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class Obj:
    """instance of an interpreted class (or of a simple native one)"""
    def __init__(self, cls, attrs=None, payload=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.payload = payload

    def __repr__(self):
        return '<obj %s>' % self.cls.name


class ADict:
    """a dict (or instance of a dict subclass); entries are [key, value]"""
    __slots__ = ('cls', 'attrs', 'table', 'entries', 'serial')

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.table = {}      # abstract hash -> serials
        self.entries = {}    # serial -> [key, value], in insertion order
        self.serial = 0


class AHash:
    """a hash value: host integer XOR a set of opaque atoms"""
    __slots__ = ('const', 'atoms')

    def __init__(self, const, atoms):
        self.const = const
        self.atoms = atoms

    def key(self):
        return ('h', self.const, self.atoms)


class AList:
    __slots__ = ('cls', 'attrs', 'items')

    def __init__(self, items, cls=None):
        self.items = items
        self.cls = cls
        self.attrs = {}


class ASet:
    __slots__ = ('cls', 'attrs', 'd', 'frozen')

    def __init__(self, d, cls):
        self.d = d
        self.cls = cls
        self.attrs = {}


class AIter:
    """a host iterator handed to interpreted code"""
    def __init__(self, it):
        self.it = it


class AFunc:
    def __init__(self, node, name, env, glob, defaults, kwdefaults, module):
        self.node = node
        self.name = name
        self.env = env
        self.glob = glob
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.attrs = {}
        self.module = module
        self.info = None
        self.qualname = name

    def __repr__(self):
        return '<afunc %s>' % self.qualname


class BoundMethod:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class NativeFn:
    def __init__(self, name, f, bind=True):
        self.name = name
        self.f = f
        self.attrs = {}
        self.bind = bind        # behaves as a method when found on a class
        self.sig = None

    def __repr__(self):
        return '<native %s>' % self.name


class AProperty:
    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel
        self.doc = doc


class NProperty:
    """native data descriptor"""
    def __init__(self, name, get, set_=None):
        self.name = name
        self.get = get
        self.set = set_


class AClassMethod:
    def __init__(self, f):
        self.f = f


class AStaticMethod:
    def __init__(self, f):
        self.f = f


class ASuper:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class AModule:
    def __init__(self, name, ns, file=None):
        self.name = name
        self.ns = ns
        self.file = file

    def __repr__(self):
        return '<amodule %s>' % self.name


class HostObj:
    """opaque host object (compiled pattern, syntax tree node, lock, ...)"""
    def __init__(self, v, kind='host'):
        self.v = v
        self.kind = kind

    def __repr__(self):
        return '<host %s %r>' % (self.kind, type(self.v).__name__)


class OpaqueStr:
    """a string whose text depends on numerical values"""
    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return '<str?>'


class SNum:
    """a number: kind is 'int', 'float', 'complex' or 'bool'"""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind):
        self.t = t
        self.kind = kind

    def __repr__(self):
        return 'SNum(%s,%s)' % (T.show(self.t), self.kind)


class ADtype:
    def __init__(self, name, kind, size):
        self.name = name
        self.kind = kind
        self.size = size

    def __repr__(self):
        return 'dtype(%s)' % self.name


class Buffer:
    __slots__ = ('t', 'writes', 'elems', 'layout')

    def __init__(self, t):
        self.t = t
        self.layout = 'C'
        self.writes = 0
        self.elems = None


class AArr:
    """numpy array, array subclass instance or numpy scalar"""
    __slots__ = ('cls', 'buf', 'path', 'shape', 'dtype', 'base', 'writeable', 'attrs', 'owns', '__weakref__')

    def __init__(self, cls, buf, shape, dtype, base=None, path=(), writeable=True, owns=True):
        self.cls = cls
        self.buf = buf
        self.path = path
        self.shape = shape
        self.dtype = dtype
        self.base = base
        self.writeable = writeable
        self.attrs = {}
        self.owns = owns

    def __repr__(self):
        return '<%s %s shape=%s %s>' % (self.cls.name, T.show(self.buf.t), self.shape, self.path or '')


class PyRaise(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, exc):
        self.exc = exc
        self.where = None

    def __str__(self):
        return 'PyRaise %s%r' % (self.exc.cls.name, self.exc.attrs.get('args'))
