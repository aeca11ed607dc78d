"""Abstract interpreter for the Python subset used by the analysed package.

The package's modules are parsed from /repo's working tree and their syntax
trees are evaluated over abstract values; no code of the package is executed.
"""
import ast
import os
import sys
import threading

from . import paths
from . import term as T
from .paths import Undecided
from .values import *

MAXDEPTH = 160
STEPS = 3_000_000

visited = set()      # qualified names of the package functions that were entered
trace = {}           # ... since the last reset: name -> (file, line)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'locals', 'kind', 'globnames', 'nonlocals', 'first', 'fn', 'yields', 'module')

    def __init__(self, parent, glob, locals_, kind, module):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.locals = locals_
        self.kind = kind      # 'module' 'function' 'class' 'cell'
        self.globnames = ()
        self.nonlocals = ()
        self.first = MISSING
        self.fn = None
        self.yields = None
        self.module = module


class FInfo:
    """scoping facts of a function node"""
    __slots__ = ('locals', 'globals', 'nonlocals', 'isgen', 'params', 'simple', 'reads')

    def __init__(self):
        self.simple = None
        self.reads = False


class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.stores = set()
        self.globals = set()
        self.nonlocals = set()
        self.isgen = False

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.stores.add(n.id)

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals |= set(n.names)

    def visit_FunctionDef(self, n):
        self.stores.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stores.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        # the first iterable is evaluated in this scope; walrus targets leak
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.stores.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.stores.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.stores.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.stores.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.stores.add(n.name)
        self.generic_visit(n)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.stores.add(n.rest)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.stores.add(n.name)


def finfo(node):
    info = getattr(node, '_finfo', None)
    if info is None:
        info = FInfo()
        v = _Scope()
        if isinstance(node, ast.Lambda):
            v.visit(node.body)
        else:
            for s in node.body:
                v.visit(s)
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        names = list(ps) + [x.arg for x in a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        info.params = ps
        info.locals = (v.stores | set(names)) - v.globals - v.nonlocals
        info.globals = v.globals
        info.nonlocals = v.nonlocals
        info.isgen = v.isgen
        node._finfo = info
    return info


class _Mangle(ast.NodeTransformer):
    def __init__(self):
        self.cls = None

    def m(self, name):
        if self.cls and name.startswith('__') and not name.endswith('__') and '.' not in name:
            c = self.cls.lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    def visit_ClassDef(self, n):
        n.name = self.m(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        n.keywords = [self.visit(d) for d in n.keywords]
        old, self.cls = self.cls, n.name
        n.body = [self.visit(s) for s in n.body]
        self.cls = old
        return n

    def visit_FunctionDef(self, n):
        n.pyname = n.name
        n.name = self.m(n.name)
        self.generic_visit(n)
        return n

    def visit_Name(self, n):
        n.id = self.m(n.id)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.m(n.attr)
        return n

    def visit_arg(self, n):
        self.generic_visit(n)
        n.arg = self.m(n.arg)
        return n

    def visit_Global(self, n):
        n.names = [self.m(x) for x in n.names]
        return n

    visit_Nonlocal = visit_Global


BINOPS = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitXor: 'xor',
    ast.BitAnd: 'and', ast.BitOr: 'or', ast.LShift: 'lshift', ast.RShift: 'rshift',
    ast.MatMult: 'matmul',
}
CMPOPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}


_HOST = {t.__name__: t for t in (str, bytes, int, float, bool, complex, tuple, list, dict, set, frozenset, range, slice)}


def _probe():
    pass


def host_has(module, name):
    """the module of the standard library has that name"""
    if module.split('.')[0] not in sys.stdlib_module_names:
        return False
    import importlib
    try:
        return hasattr(importlib.import_module(module), name)
    except ImportError:
        return False


class Gen:
    """a running generator of the interpreted program; the body runs in a thread of its own, one of
    the two threads at a time"""
    def __init__(self, I, node, env):
        self.I, self.node, self.env = I, node, env
        self.state = 'new'
        self.out = self.sent = self.error = self.result = None

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume(None, None)

    def resume(self, value, error):
        if self.state == 'done':
            if error is not None:
                raise error
            raise StopIteration
        if self.state == 'running':
            raise self.I.exc('ValueError', 'generator already executing')
        self.sent, self.thrown = value, error
        depth = self.I.depth
        if self.state == 'new':
            if error is not None:
                self.state = 'done'
                raise error
            self.mine, self.theirs = threading.Semaphore(0), threading.Semaphore(0)
            self.state = 'running'
            old = threading.stack_size(128 << 20)
            paths.live[0] += 1
            t = threading.Thread(target=self.body, daemon=True)
            t.start()
            threading.stack_size(old)
        else:
            self.state = 'running'
            self.mine.release()
        self.theirs.acquire()
        self.I.depth = depth
        if self.state == 'done':
            if self.error is not None:
                e, self.error = self.error, None
                raise e
            raise StopIteration
        return self.out

    def body(self):
        try:
            self.I.block(self.node.body, self.env)
        except _Return as r:
            self.result = r.v
        except BaseException as e:
            self.error = e
        self.state = 'done'
        paths.live[0] -= 1
        self.theirs.release()

    def give(self, v):
        self.out = v
        self.state = 'waiting'
        self.theirs.release()
        self.mine.acquire()
        if self.thrown is not None:
            e, self.thrown = self.thrown, None
            raise e
        return self.sent


class Interp:
    def __init__(self, root, package='quantities', optimize=False):
        self.root = root
        self.package = package
        self.optimize = optimize
        self.modules = {}
        self.depth = 0
        self.hash_cache = {}
        self.steps = 0
        self.handling = []
        self.native_modules = {}
        self.loc = None
        self.files = {}
        self.evals = {getattr(ast, k[2:]): getattr(self, k) for k in dir(self) if k.startswith('e_')}
        self.execs = {getattr(ast, k[2:]): getattr(self, k) for k in dir(self) if k.startswith('x_')}
        from . import builtins_ as B
        self.B = B
        self.builtins = B.install(self)
        from . import npmodel
        npmodel.install(self)
        from . import stdlib
        stdlib.install(self)

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        cls = name if isinstance(name, AClass) else self.B.EXC[name]
        return PyRaise(Obj(cls, {'args': tuple(args)}))

    def catch(self, e, cls):
        """is the raised exception an instance of (one of) cls"""
        if isinstance(cls, tuple):
            return any(self.catch(e, c) for c in cls)
        if not isinstance(cls, AClass):
            raise Undecided('except clause is not a class')
        return e.exc.cls.issub(cls)

    # --------------------------------------------------------------- modules
    def import_module(self, name):
        """import a dotted module, returning the module value"""
        if name in self.modules:
            return self.modules[name]
        if name in self.native_modules:
            m = self.native_modules[name]
            if callable(m):
                m = m()
            self.modules[name] = m
            return m
        if name.split('.')[0] != self.package:
            m = self.host_module(name)
            if m is None:
                raise self.exc('ModuleNotFoundError', 'No module named %r' % name)
            self.modules[name] = m
            return m
        if '.' in name:
            self.import_module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        rel = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(rel):
            file = os.path.join(rel, '__init__.py')
            pkg = name
        else:
            file = rel + '.py'
            pkg = name.rpartition('.')[0]
        if not os.path.isfile(file):
            raise self.exc('ModuleNotFoundError', 'No module named %r' % name)
        with open(file, encoding='utf-8') as f:
            src = f.read()
        tree = _Mangle().visit(ast.parse(src, file))
        ns = {'__name__': name, '__file__': file, '__package__': pkg, '__doc__': ast.get_docstring(tree),
              '__builtins__': None}
        mod = AModule(name, ns, file)
        self.modules[name] = mod
        self.files[file] = src
        parent, _, leaf = name.rpartition('.')
        env = Env(None, ns, None, 'module', mod)
        env.vars = ns
        old = self.depth
        try:
            self.block(tree.body, env)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.depth = old
        if parent:
            self.modules[parent].ns[leaf] = mod
        return mod

    def host_module(self, name):
        from . import stdlib
        return stdlib.host_module(self, name)

    def resolve_from(self, env, level, module):
        if level == 0:
            return module
        pkg = env.glob['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + module if module else '')

    def x_Import(self, n, env):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), env)

    def x_ImportFrom(self, n, env):
        name = self.resolve_from(env, n.level, n.module)
        m = self.import_module(name)
        for a in n.names:
            if a.name == '*':
                names = m.ns.get('__all__')
                if names is None:
                    names = [k for k in m.ns if not k.startswith('_')]
                else:
                    names = self.to_list(names)
                for k in names:
                    self.store(k, self.module_attr(m, k), env)
            else:
                self.store(a.asname or a.name, self.module_attr(m, a.name, True), env)

    def module_attr(self, m, name, importing=False):
        if name in m.ns:
            return m.ns[name]
        if importing and m.name.split('.')[0] == self.package:
            try:
                return self.import_module(m.name + '.' + name)
            except PyRaise as e:
                if e.exc.cls is not self.B.EXC['ModuleNotFoundError']:
                    raise
        if '__getattr__' in m.ns:
            return self.call(m.ns['__getattr__'], [name])
        if hasattr(m, 'fallback'):
            return m.fallback(name)
        if host_has(m.name, name):
            from . import stdlib
            return stdlib.undecided_fn('%s.%s' % (m.name, name))
        if importing:
            raise self.exc('ImportError', 'cannot import name %r from %r' % (name, m.name))
        raise self.exc('AttributeError', 'module %r has no attribute %r' % (m.name, name))

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        execs = self.execs
        for s in stmts:
            self.steps += 1
            f = execs.get(type(s))
            if f is None:
                raise Undecided('statement %s' % type(s).__name__)
            f(s, env)
        if self.steps > STEPS:
            raise Undecided('step limit')

    def x_Expr(self, n, env):
        self.eval(n.value, env)

    def x_Pass(self, n, env):
        pass

    def x_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, env), env)

    def x_AugAssign(self, n, env):
        op = BINOPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, env)
            self.store(t.id, self.inplace(op, old, self.eval(n.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.eval(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, old, self.eval(n.value, env)))
        else:
            raise Undecided('augmented assignment target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                mid = items[i:len(items) - k]
                parts = items[:i] + [AList(mid, self.B.LIST)] + items[len(items) - k:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(items) != len(t.elts):
                raise self.exc('ValueError', 'cannot unpack %d values into %d' % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        else:
            raise Undecided('assignment target %s' % type(t).__name__)

    def x_Delete(self, n, env):
        for t in n.targets:
            self.delete(t, env)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            e = self.scope_of(t.id, env)
            if t.id not in e:
                raise self.exc('NameError', t.id)
            del e[t.id]
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, env), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, env)

    def x_If(self, n, env):
        if self.truth(self.eval(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def x_While(self, n, env):
        count = 0
        while self.truth(self.eval(n.test, env)):
            count += 1
            if count > 20000:
                raise Undecided('loop bound')
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(n.orelse, env)

    def x_For(self, n, env):
        for v in self.iterate(self.eval(n.iter, env)):
            self.assign(n.target, v, env)
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(n.orelse, env)

    def x_Break(self, n, env):
        raise _Break()

    def x_Continue(self, n, env):
        raise _Continue()

    def x_Return(self, n, env):
        raise _Return(self.eval(n.value, env) if n.value is not None else None)

    def x_Global(self, n, env):
        pass

    x_Nonlocal = x_Global

    def x_Assert(self, n, env):
        if self.optimize:
            return
        if not self.truth(self.eval(n.test, env)):
            args = [self.eval(n.msg, env)] if n.msg is not None else []
            raise self.at(n, env, self.exc('AssertionError', *args))

    def at(self, n, env, e):
        if e.where is None:
            e.where = self.where(n, env)
        return e

    def where(self, n, env):
        f = env.module.file if env.module else None
        return '%s:%s' % (os.path.relpath(f, self.root) if f else '?', getattr(n, 'lineno', '?'))

    def x_Raise(self, n, env):
        if n.exc is None:
            if not self.handling:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise self.handling[-1]
        v = self.eval(n.exc, env)
        if isinstance(v, AClass):
            v = self.call(v, [])
        if not isinstance(v, Obj) or not v.cls.issub(self.B.EXC['BaseException']):
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        if n.cause is not None:
            v.attrs['__cause__'] = self.eval(n.cause, env)
        raise self.at(n, env, PyRaise(v))

    def x_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None or self.catch(e, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.handling.append(e)
                        try:
                            self.block(h.body, env)
                        except PyRaise as e2:
                            if e2.exc is not e.exc and '__context__' not in e2.exc.attrs:
                                e2.exc.attrs['__context__'] = e.exc
                            raise
                        finally:
                            self.handling.pop()
                            if h.name:
                                self.scope_of(h.name, env).pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, env)
        finally:
            if n.finalbody:
                self.block(n.finalbody, env)

    def x_With(self, n, env):
        self._with(list(n.items), n.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)
        cls = self.type_of(cm)
        ent, ext = cls.lookup('__enter__'), cls.lookup('__exit__')
        if ent is MISSING or ext is MISSING:
            raise Undecided('context manager %s' % cls.name)
        v = self.call(self.bind(ent, cm, cls), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self._with(items[1:], body, env)
        except PyRaise as e:
            if self.truth(self.call(self.bind(ext, cm, cls), [e.exc.cls, e.exc, None])):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(self.bind(ext, cm, cls), [None, None, None])
            raise
        else:
            self.call(self.bind(ext, cm, cls), [None, None, None])

    def x_FunctionDef(self, n, env):
        f = self.make_function(n, env)
        v = f
        for d in reversed(n.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v])
        self.store(n.name, v, env)

    def make_function(self, n, env):
        a = n.args
        defaults = [self.eval(x, env) for x in a.defaults]
        kwd = {p.arg: self.eval(x, env) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None}
        name = getattr(n, 'pyname', None) or getattr(n, 'name', '<lambda>')
        cenv = env
        if env.kind == 'class':
            cenv = env.parent      # the cell environment
        f = AFunc(n, name, cenv, env.glob, defaults, kwd, env.module)
        f.info = finfo(n)
        if not isinstance(n, ast.Lambda):
            f.attrs['__doc__'] = ast.get_docstring(n)
        else:
            f.attrs['__doc__'] = None
        if env.kind == 'class':
            f.qualname = env.vars.get('__qualname__', '') + '.' + name
        elif env.kind == 'function' and env.fn is not None:
            f.qualname = env.fn.qualname + '.' + name
        f.attrs['__name__'] = name
        f.attrs['__qualname__'] = f.qualname
        f.attrs['__module__'] = env.glob.get('__name__')
        return f

    def x_ClassDef(self, n, env):
        bases = [self.eval(b, env) for b in n.bases]
        kw = {k.arg: self.eval(k.value, env) for k in n.keywords}
        meta = kw.pop('metaclass', None)
        if None in kw or meta is not None and meta is not self.B.TYPE and getattr(meta, 'name', '') != 'ABCMeta':
            raise Undecided('metaclass')
        cell = Env(env if env.kind != 'class' else env.parent, env.glob, {'__class__'}, 'cell', env.module)
        if env.kind == 'module':
            cell.parent = env
        body = Env(cell, env.glob, None, 'class', env.module)
        q = n.name
        if env.kind == 'class':
            q = env.vars.get('__qualname__', '') + '.' + n.name
        body.vars['__module__'] = env.glob.get('__name__')
        body.vars['__qualname__'] = q
        doc = ast.get_docstring(n)
        body.vars['__doc__'] = doc
        # names in a class body resolve: class namespace, then enclosing scopes
        self.block(n.body, body)
        cls = self.make_class(n.name, bases, body.vars, env.glob.get('__name__'), kw)
        cell.vars['__class__'] = cls
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.store(n.name, v, env)

    def make_class(self, name, bases, ns, module, kw=None):
        bases = [b for b in bases]
        for b in bases:
            if not isinstance(b, AClass):
                raise Undecided('base class of %s' % name)
        if not bases:
            bases = [self.B.OBJECT]
        ns = dict(ns)
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        cls = AClass(name, bases, ns, module)
        cls.qualname = ns.get('__qualname__', name)
        for k in ('__init_subclass__', '__class_getitem__'):
            if k in ns and isinstance(ns[k], AFunc):
                ns[k] = AClassMethod(ns[k])
        if '__new__' in ns and isinstance(ns['__new__'], AFunc):
            ns['__new__'] = AStaticMethod(ns['__new__'])
        for k, v in list(ns.items()):
            if isinstance(v, Obj):
                sn = v.cls.lookup('__set_name__')
                if sn is not MISSING:
                    self.call(self.bind(sn, v, v.cls), [cls, k])
        for b in cls.mro[1:]:
            if '__init_subclass__' in b.ns and b is not self.B.OBJECT:
                self.call(BoundMethod(b.ns['__init_subclass__'].f, cls), [], kw)
                break
        else:
            if kw:
                raise self.exc('TypeError', '%s.__init_subclass__() takes no keyword arguments' % name)
        return cls

    def x_Match(self, n, env):
        subj = self.eval(n.subject, env)
        for c in n.cases:
            if self.match(c.pattern, subj, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                return self.block(c.body, env)

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('eq', v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, env)
            if not self.isinstance(v, cls):
                return False
            pos = list(p.patterns)
            if pos:
                if cls in (self.B.INT, self.B.FLOAT, self.B.STR, self.B.BOOL, self.B.LIST, self.B.TUPLE, self.B.DICT):
                    if len(pos) != 1:
                        raise self.exc('TypeError', 'accepts 1 positional sub-pattern')
                    if not self.match(pos[0], v, env):
                        return False
                    pos = []
                else:
                    names = self.to_list(self.getattr(cls, '__match_args__'))
                    if len(pos) > len(names):
                        raise self.exc('TypeError', 'accepts fewer positional sub-patterns')
                    for k, q in zip(names, pos):
                        x = self.getattr(v, k, MISSING)
                        if x is MISSING or not self.match(q, x, env):
                            return False
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, k, MISSING)
                if x is MISSING or not self.match(q, x, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, AList, range)):
                if isinstance(v, (str, bytes, SNum, ADict, ASet, AArr, Obj, AFunc, AClass)) or v is None or isinstance(v, (int, float)):
                    return False
                raise Undecided('match pattern')
            items = list(self.iterate(v))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
            k = star[0]
            after = len(p.patterns) - k - 1
            if len(items) < k + after:
                return False
            mid = items[k:len(items) - after]
            if not all(self.match(q, x, env) for q, x in zip(p.patterns[:k], items[:k])):
                return False
            if p.patterns[k].name:
                self.store(p.patterns[k].name, AList(mid, self.B.LIST), env)
            return all(self.match(q, x, env) for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, ADict):
                if isinstance(v, (str, bytes, tuple, AList, SNum, AArr)) or v is None:
                    return False
                raise Undecided('match pattern')
            left = self.call(self.B.DICT, [v])
            for kn, q in zip(p.keys, p.patterns):
                k = self.eval(kn, env)
                x = self.call(self.getattr(left, 'pop'), [k, MISSING])
                if x is MISSING or not self.match(q, x, env):
                    return False
            if p.rest:
                self.store(p.rest, left, env)
            return True
        raise Undecided('match pattern')

    # ------------------------------------------------------------ names
    def scope_of(self, name, env):
        """the namespace a store or delete of name acts on"""
        if env.kind in ('module', 'class'):
            return env.vars if name not in env.globnames else env.glob
        if env.fn is not None:
            info = env.fn.info
            if name in info.globals:
                return env.glob
            if name in info.nonlocals:
                e = env.parent
                while e is not None:
                    if e.locals is not None and name in e.locals and e.kind in ('function', 'cell'):
                        return e.vars
                    e = e.parent
        elif env.kind == 'function' and name not in env.locals and env.parent is not None:
            # comprehension scope: walrus
            return self.scope_of(name, env.parent)
        return env.vars

    def store(self, name, v, env):
        k = env.kind
        if k == 'module' or (k == 'class' and not env.globnames):
            env.vars[name] = v
        elif k == 'function' and env.fn is not None and not env.fn.info.globals and not env.fn.info.nonlocals:
            env.vars[name] = v
        else:
            self.scope_of(name, env)[name] = v

    def load(self, name, env):
        e = env
        if e.kind == 'class':
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        while e is not None:
            if e.kind == 'module':
                break
            if e.locals is not None and name in e.locals and e.kind != 'class':
                if name in e.vars:
                    return e.vars[name]
                raise self.exc('UnboundLocalError' if e is env else 'NameError', name)
            e = e.parent
        g = env.glob
        if name in g:
            return g[name]
        b = self.builtins.get(name, MISSING)
        if b is not MISSING:
            bi = g.get('__builtins__')
            if isinstance(bi, ADict) and not bi.entries:
                raise self.exc('NameError', name)
            return b
        raise self.exc('NameError', 'name %r is not defined' % name)

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        f = self.evals.get(type(n))
        if f is None:
            raise Undecided('expression %s' % type(n).__name__)
        try:
            return f(n, env)
        except PyRaise as e:
            if e.where is None:
                e.where = self.where(n, env)
            raise

    def e_Constant(self, n, env):
        v = n.value
        if type(v) is float:
            r = getattr(n, '_snum', None)
            if r is None:
                seg = repr(v)
                r = n._snum = SNum(T.const(v), 'float')
            return r
        if type(v) is complex:
            return SNum(T.fn('complex', repr(v)), 'complex')
        return v

    def e_Name(self, n, env):
        return self.load(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return AList(self.elts(n.elts, env), self.B.LIST)

    def e_Set(self, n, env):
        return self.B.make_set(self, self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, n, env):
        d = ADict(self.B.DICT)
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk, vv in self.B.dict_pairs(self, src):
                    self.B.dset(self, d, kk, vv)
            else:
                kk = self.eval(k, env)
                self.B.dset(self, d, kk, self.eval(v, env))
        return d

    def e_BinOp(self, n, env):
        return self.binop(BINOPS[type(n.op)], self.eval(n.left, env), self.eval(n.right, env))

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.unary({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)], v)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        for x in n.values[:-1]:
            v = self.eval(x, env)
            if self.truth(v) != isand:
                return v
        return self.eval(n.values[-1], env)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        r = True
        for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(x, env)
            r = self.cmp_node(op, left, right)
            if i < len(n.ops) - 1 and not self.truth(r):
                return r
            left = right
        return r

    def cmp_node(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        return self.compare(CMPOPS[type(op)], a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
            return False
        if type(a) is type(b) and isinstance(a, (int, bool, str)):
            return a == b
        return False

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_function(n, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Starred(self, n, env):
        raise Undecided('starred expression')

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.fmt_value(v, env))
        return self.B.str_concat(parts)

    def fmt_value(self, v, env):
        x = self.eval(v.value, env)
        if v.conversion == ord('r'):
            x = self.B.repr_(self, x)
        elif v.conversion == ord('s'):
            x = self.B.str_(self, x)
        elif v.conversion == ord('a'):
            x = self.B.repr_(self, x)
        spec = '' if v.format_spec is None else self.eval(v.format_spec, env)
        return self.B.format_(self, x, spec)

    def e_FormattedValue(self, n, env):
        return self.fmt_value(n, env)

    def e_Yield(self, n, env):
        e = env
        while e.yields is None:
            e = e.parent
        return e.yields.give(self.eval(n.value, env) if n.value is not None else None)

    def e_YieldFrom(self, n, env):
        e = env
        while e.yields is None:
            e = e.parent
        it = self.iterate(self.eval(n.value, env))
        for v in it:
            e.yields.give(v)
        return getattr(it, 'result', None)

    # comprehensions
    def comp(self, gens, env, body):
        first = self.eval(gens[0].iter, env)

        def rec(i, e, it):
            g = gens[i]
            for v in self.iterate(it):
                self.assign(g.target, v, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    if i + 1 == len(gens):
                        yield body(e)
                    else:
                        yield from rec(i + 1, e, self.eval(gens[i + 1].iter, e))

        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        if env.kind == 'class':
            e = Env(env.parent, env.glob, names, 'function', env.module)
        else:
            e = Env(env, env.glob, names, 'function', env.module)
        e.first = MISSING
        return rec(0, e, first)

    def e_ListComp(self, n, env):
        return AList(list(self.comp(n.generators, env, lambda e: self.eval(n.elt, e))), self.B.LIST)

    def e_GeneratorExp(self, n, env):
        return AIter(self.comp(n.generators, env, lambda e: self.eval(n.elt, e)))

    def e_SetComp(self, n, env):
        return self.B.make_set(self, list(self.comp(n.generators, env, lambda e: self.eval(n.elt, e))))

    def e_DictComp(self, n, env):
        d = ADict(self.B.DICT)
        for k, v in self.comp(n.generators, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e))):
            self.B.dset(self, d, k, v)
        return d

    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args and not n.keywords:
            b = self.load('super', env)
            if b is self.B.SUPER:
                return self.zero_super(env)
        fv = self.eval(f, env)
        args = self.elts(n.args, env)
        if not n.keywords and type(fv) is not NativeFn:
            return self.call(fv, args)
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                for kk, vv in self.B.dict_pairs(self, v):
                    if not isinstance(kk, str):
                        raise self.exc('TypeError', 'keywords must be strings')
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for keyword argument')
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise self.exc('TypeError', 'multiple values for keyword argument')
                kwargs[k.arg] = v
        if fv is self.B.NATIVE_LOCALS or fv is self.B.NATIVE_GLOBALS:
            return self.B.namespace_dict(self, env, fv is self.B.NATIVE_GLOBALS)
        return self.call(fv, args, kwargs)

    def zero_super(self, env):
        e = env
        while e is not None and e.first is MISSING and e.kind != 'module':
            e = e.parent
        if e is None or e.first is MISSING:
            raise self.exc('RuntimeError', 'super(): no arguments')
        cls = self.load('__class__', env)
        return ASuper(cls, e.first)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        t = type(f)
        if t is AFunc:
            return self.call_function(f, list(args), kwargs or {})
        if t is BoundMethod:
            return self.call(f.func, [f.self] + list(args), kwargs)
        if t is NativeFn:
            return self.call_native(f, args, kwargs or {})
        if t is AClass:
            return self.instantiate(f, list(args), kwargs or {})
        if t is Obj or t is AArr or t is ADict:
            c = self.type_of(f).lookup('__call__')
            if c is not MISSING:
                return self.call(self.bind(c, f, self.type_of(f)), args, kwargs)
        if t is AStaticMethod:
            return self.call(f.f, args, kwargs)
        if hasattr(f, 'native_call'):
            return f.native_call(self, list(args), kwargs or {})
        if isinstance(f, (HostObj, OpaqueStr)):
            raise Undecided('call of %r' % (f,))
        raise self.exc('TypeError', '%s object is not callable' % self.type_of(f).name)

    def call_native(self, f, args, kwargs):
        try:
            return f.f(self, *args, **kwargs)
        except TypeError as e:
            # a wrong call signature is the program's TypeError
            import inspect
            try:
                inspect.signature(f.f).bind(self, *args, **kwargs)
            except TypeError as e2:
                tb = e.__traceback__
                if tb.tb_next is None:
                    raise self.exc('TypeError', '%s: %s' % (f.name, e2))
            raise

    def call_function(self, f, args, kwargs):
        if self.depth > MAXDEPTH:
            raise self.exc('RecursionError', 'maximum recursion depth exceeded')
        env = Env(f.env, f.glob, f.info.locals, 'function', f.module)
        env.fn = f
        self.bind_args(f, args, kwargs, env)
        env.first = env.vars.get(f.info.params[0], MISSING) if f.info.params else MISSING
        if f.module is not None and f.module.file:
            n = f.module.name + ':' + f.qualname
            visited.add(n)
            if n not in trace:
                trace[n] = (f.module.file, getattr(f.node, 'lineno', 0))
        self.depth += 1
        try:
            node = f.node
            if type(node) is ast.Lambda:
                return self.eval(node.body, env)
            if f.info.isgen:
                env.yields = Gen(self, node, env)
                return AIter(env.yields)
            try:
                self.block(node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        vars_ = env.vars
        simple = f.info.simple
        if simple is None:
            simple = f.info.simple = [p.arg for p in a.args] if not (a.posonlyargs or a.vararg or a.kwonlyargs or a.kwarg) else False
        if simple is not False and not kwargs and len(args) <= len(simple):
            for p, v in zip(simple, args):
                vars_[p] = v
            k = len(simple) - len(args)
            if k:
                d = f.defaults
                if k > len(d):
                    raise self.exc('TypeError', '%s() missing required argument %r' % (f.name, simple[len(args)]))
                for p, v in zip(simple[-k:], d[-k:]):
                    vars_[p] = v
            return
        pos = a.posonlyargs + a.args
        np_ = len(pos)
        if len(args) > np_ and not a.vararg:
            raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, np_, len(args)))
        for p, v in zip(pos, args):
            vars_[p.arg] = v
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args[np_:])
        extra = {}
        npo = len(a.posonlyargs)
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vars_:
                    raise self.exc('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, k))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars_:
                j = i - (np_ - nd)
                if j < 0:
                    raise self.exc('TypeError', '%s() missing required argument %r' % (f.name, p.arg))
                vars_[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg not in f.kwdefaults:
                    raise self.exc('TypeError', '%s() missing keyword-only argument %r' % (f.name, p.arg))
                vars_[p.arg] = f.kwdefaults[p.arg]
        if a.kwarg:
            d = ADict(self.B.DICT)
            for k, v in extra.items():
                self.B.dset(self, d, k, v)
            vars_[a.kwarg.arg] = d

    def instantiate(self, cls, args, kwargs):
        if cls is self.B.TYPE and len(args) == 1:
            return self.type_of(args[0])
        new = cls.lookup('__new__')
        if isinstance(new, AStaticMethod):
            new = new.f
        o = self.call(new, [cls] + args, kwargs)
        ocls = self.type_of(o)
        if isinstance(o, (Obj, AArr, ADict, AList, ASet)) and ocls.issub(cls):
            init = ocls.lookup('__init__')
            if init is not MISSING and init is not self.B.OBJECT.ns['__init__']:
                self.call(self.bind(init, o, ocls), args, kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def type_of(self, v):
        return self.B.type_of(v)

    def bind(self, a, obj, cls):
        t = type(a)
        if t is AFunc:
            return BoundMethod(a, obj)
        if t is NativeFn:
            return BoundMethod(a, obj) if a.bind else a
        if t is AClassMethod:
            return BoundMethod(a.f, cls)
        if t is AStaticMethod:
            return a.f
        if t is AProperty:
            if a.fget is None:
                raise self.exc('AttributeError', 'unreadable attribute')
            return self.call(a.fget, [obj])
        if t is NProperty:
            return a.get(self, obj)
        if t is Obj:
            g = a.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(self.bind(g, a, a.cls), [obj, cls])
        if hasattr(a, 'native_get'):
            return a.native_get(self, obj, cls)
        return a

    def is_data_descr(self, a):
        t = type(a)
        if t is AProperty or t is NProperty:
            return True
        return t is Obj and a.cls.lookup('__set__') is not MISSING

    def instance_attrs(self, v):
        t = type(v)
        if t is Obj or t is ADict or t is AArr or t is AList or t is ASet:
            return v.attrs
        return None

    def getattr(self, v, name, default=MISSING):
        try:
            return self._getattr(v, name)
        except PyRaise as e:
            if default is not MISSING and e.exc.cls.issub(self.B.EXC['AttributeError']):
                return default
            raise

    def _getattr(self, v, name):
        t = type(v)
        if t is AModule:
            if name == '__dict__':
                return self.B.ns_view(self, v.ns)
            return self.module_attr(v, name)
        if t is AClass:
            return self.class_getattr(v, name)
        if t is ASuper:
            return self.super_getattr(v, name)
        if t is AFunc or t is NativeFn:
            if name in v.attrs:
                return v.attrs[name]
            if name == '__wrapped__':
                raise self.exc('AttributeError', name)
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '__doc__':
                return OpaqueStr() if t is NativeFn else None
            if name == '__dict__':
                return self.B.ns_view(self, v.attrs)
            if name == '__module__':
                return None
            if name == '__get__':
                return NativeFn('__get__', lambda I, o, c=None: v if o is None else BoundMethod(v, o))
            if name == '__call__':
                return v
            if name == '__defaults__' and t is AFunc:
                return tuple(f for f in v.defaults) or None
            if name.startswith('__') and hasattr(_probe, name) or t is NativeFn and name in ('args', 'keywords', 'cache_info'):
                raise Undecided('function attribute %s' % name)
            raise self.exc('AttributeError', "function has no attribute %r" % name)
        if t is BoundMethod:
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            return self._getattr(v.func, name)
        if t is AClassMethod or t is AStaticMethod:
            if name in ('__func__', '__wrapped__'):
                return v.f
            if name == '__get__':
                return NativeFn('__get__', lambda I, o, c=None: I.bind(v, o, c if c is not None else I.B.type_of(o)))
            return self._getattr(v.f, name)
        if t is AProperty:
            if name in ('fget', 'fset', 'fdel'):
                return getattr(v, name)
            if name in ('getter', 'setter', 'deleter'):
                def dec(I, f, name=name):
                    p = AProperty(v.fget, v.fset, v.fdel)
                    setattr(p, {'getter': 'fget', 'setter': 'fset', 'deleter': 'fdel'}[name], f)
                    return p
                return NativeFn(name, dec)
            if name == '__get__':
                return NativeFn('__get__', lambda I, o, c=None: I.bind(v, o, c))
            if name == '__set__':
                return NativeFn('__set__', lambda I, o, x: I.call(v.fset, [o, x]))
            if name == '__doc__':
                return self.getattr(v.fget, '__doc__', None)
        if t is NProperty:
            if name == '__get__':
                return NativeFn('__get__', lambda I, o, c=None: v.get(I, o))
            if name == '__set__':
                def nset(I, o, x):
                    if v.set is None:
                        raise I.exc('AttributeError', v.name)
                    return v.set(I, o, x)
                return NativeFn('__set__', nset)
            if name == 'fget':
                raise self.exc('AttributeError', name)
            if name == '__doc__':
                return OpaqueStr()
        if hasattr(v, 'native_getattr'):
            return v.native_getattr(self, name)
        cls = self.B.type_of(v)
        a = cls.lookup(name)
        if a is not MISSING and self.is_data_descr(a):
            try:
                return self.bind(a, v, cls)
            except PyRaise as e:
                if not e.exc.cls.issub(self.B.EXC['AttributeError']):
                    raise
                h = cls.lookup('__getattr__')
                if h is MISSING:
                    raise
                return self.call(self.bind(h, v, cls), [name])
        attrs = self.instance_attrs(v)
        if attrs is not None:
            if name in attrs:
                return attrs[name]
            if name == '__dict__':
                return self.B.ns_view(self, attrs)
        if name == '__class__':
            return cls
        if a is not MISSING:
            return self.bind(a, v, cls)
        h = cls.lookup('__getattr__')
        if h is not MISSING:
            return self.call(self.bind(h, v, cls), [name])
        self.known_attr(cls, name)
        raise self.exc('AttributeError', '%r object has no attribute %r' % (cls.name, name))

    def known_attr(self, cls, name):
        """an attribute that exists in reality but has no model"""
        for c in cls.mro:
            h = _HOST.get(c.name) if c.module == 'builtins' else None
            if h is not None and hasattr(h, name):
                raise Undecided('%s.%s' % (c.name, name))

    def class_getattr(self, c, name):
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.qualname
        if name == '__module__':
            return c.module
        if name == '__mro__':
            return c.mro
        if name == '__bases__':
            return c.bases
        if name == '__dict__':
            return self.B.ns_view(self, c.ns)
        if name == '__class__':
            return self.B.TYPE
        if name == 'mro':
            return NativeFn('mro', lambda I: AList(list(c.mro), self.B.LIST))
        a = c.lookup(name)
        if a is MISSING:
            if name == '__doc__':
                return None
            if name == '__subclasses__':
                raise Undecided('__subclasses__')
            self.known_attr(c, name)
            raise self.exc('AttributeError', 'type object %r has no attribute %r' % (c.name, name))
        t = type(a)
        if t is AClassMethod:
            return BoundMethod(a.f, c)
        if t is AStaticMethod:
            return a.f
        if t is Obj:
            g = a.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(self.bind(g, a, a.cls), [None, c])
        return a

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, AClass) and obj.issub(s.cls):
            start = obj
        else:
            start = self.type_of(obj)
        mro = start.mro
        if s.cls not in mro:
            raise self.exc('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
        for c in mro[mro.index(s.cls) + 1:]:
            if name in c.ns:
                a = c.ns[name]
                if isinstance(a, AStaticMethod):
                    return a.f
                if isinstance(a, AClassMethod):
                    return BoundMethod(a.f, start)
                if name == '__new__':
                    return a
                if start is obj:
                    return a
                return self.bind(a, obj, start)
        raise self.exc('AttributeError', "'super' object has no attribute %r" % name)

    def setattr(self, v, name, val):
        t = type(v)
        if t is AModule:
            v.ns[name] = val
            return
        if t is AClass:
            if v.module == 'builtins' or v.module == 'numpy':
                raise self.exc('TypeError', 'cannot set attribute of immutable type')
            v.ns[name] = val
            return
        if t is AFunc or (t is NativeFn):
            v.attrs[name] = val
            return
        if hasattr(v, 'native_setattr'):
            return v.native_setattr(self, name, val)
        cls = self.B.type_of(v)
        h = cls.lookup('__setattr__')
        if h is not MISSING and isinstance(h, AFunc):
            return self.call(BoundMethod(h, v), [name, val])
        self.plain_setattr(v, name, val)

    def plain_setattr(self, v, name, val):
        cls = self.B.type_of(v)
        a = cls.lookup(name)
        t = type(a)
        if t is AProperty:
            if a.fset is None:
                raise self.exc('AttributeError', 'property %r has no setter' % name)
            self.call(a.fset, [v, val])
            return
        if t is NProperty:
            if a.set is None:
                raise self.exc('AttributeError', 'attribute %r is not writable' % name)
            a.set(self, v, val)
            return
        if t is Obj:
            s = a.cls.lookup('__set__')
            if s is not MISSING:
                self.call(self.bind(s, a, a.cls), [v, val])
                return
        attrs = self.instance_attrs(v)
        if attrs is None or cls.module in ('builtins', 'numpy') and not isinstance(v, Obj):
            raise self.exc('AttributeError', '%r object has no attribute %r' % (cls.name, name))
        if name == '__dict__':
            if isinstance(val, ADict) and isinstance(val.attrs.get('ns'), dict):
                v.attrs = val.attrs['ns']
            elif isinstance(val, ADict):
                # share: attributes live in the dict
                ns = self.B.dict_to_ns(self, val)
                v.attrs = ns
            else:
                raise self.exc('TypeError', '__dict__ must be set to a dictionary')
            return
        if name == '__class__':
            if isinstance(v, Obj) and isinstance(val, AClass):
                v.cls = val
                return
            raise Undecided('__class__ assignment')
        attrs[name] = val

    def delattr(self, v, name):
        if isinstance(v, AModule):
            if name not in v.ns:
                raise self.exc('AttributeError', name)
            del v.ns[name]
            return
        attrs = self.instance_attrs(v)
        if isinstance(v, (AClass,)):
            attrs = v.ns
        if attrs is None or name not in attrs:
            raise self.exc('AttributeError', name)
        del attrs[name]

    # ------------------------------------------------------------ operators
    def special(self, v, name):
        """type-level lookup of a special method, bound; MISSING if absent"""
        cls = self.B.type_of(v)
        a = cls.lookup(name)
        if a is MISSING or a is None:
            return MISSING
        return self.bind(a, v, cls)

    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta in _PRIM and tb in _PRIM:
            return self.B.prim_binop(self, op, a, b)
        return self._binop(op, a, b)

    def _binop(self, op, a, b):
        NI = NotImplemented
        if op == 'mod' and type(a) in (str, OpaqueStr):
            return self.B.str_mod(self, a, b) if type(a) is str else OpaqueStr()
        ca, cb = self.B.type_of(a), self.B.type_of(b)
        la = ca.lookup('__%s__' % op)
        rb = cb.lookup('__r%s__' % op)
        tried = False
        if cb is not ca and rb is not MISSING and rb is not None and cb.issub(ca):
            if rb is not ca.lookup('__r%s__' % op):
                tried = True
                r = self.call(self.bind(rb, b, cb), [a])
                if r is not NI:
                    return r
        if la is not MISSING and la is not None:
            r = self.call(self.bind(la, a, ca), [b])
            if r is not NI:
                return r
        if not tried and rb is not MISSING and rb is not None and cb is not ca:
            r = self.call(self.bind(rb, b, cb), [a])
            if r is not NI:
                return r
        raise self.exc('TypeError', 'unsupported operand type(s) for %s: %r and %r' % (op, ca.name, cb.name))

    def inplace(self, op, a, b):
        if type(a) in _PRIM and type(b) in _PRIM:
            return self.B.prim_binop(self, op, a, b)
        ca = self.B.type_of(a)
        m = ca.lookup('__i%s__' % op)
        if m is not MISSING and m is not None:
            r = self.call(self.bind(m, a, ca), [b])
            if r is not NotImplemented:
                return r
        return self.binop(op, a, b)

    def unary(self, op, v):
        if type(v) in _PRIM:
            return self.B.prim_unary(self, op, v)
        m = self.special(v, '__%s__' % op)
        if m is MISSING:
            raise self.exc('TypeError', 'bad operand type for unary %s: %r' % (op, self.type_of(v).name))
        return self.call(m, [])

    def compare(self, op, a, b):
        if type(a) in _PRIM and type(b) in _PRIM:
            return self.B.prim_compare(self, op, a, b)
        ca, cb = self.B.type_of(a), self.B.type_of(b)
        la = ca.lookup('__%s__' % op)
        rb = cb.lookup('__%s__' % SWAP[op])
        NI = NotImplemented
        tried = False
        if cb is not ca and cb.issub(ca) and rb is not MISSING and rb is not None:
            tried = True
            r = self.call(self.bind(rb, b, cb), [a])
            if r is not NI:
                return r
        if la is not MISSING and la is not None:
            r = self.call(self.bind(la, a, ca), [b])
            if r is not NI:
                return r
        if not tried and rb is not MISSING and rb is not None:
            r = self.call(self.bind(rb, b, cb), [a])
            if r is not NI:
                return r
        if op == 'eq':
            return a is b
        if op == 'ne':
            return a is not b
        raise self.exc('TypeError', '%r not supported between instances of %r and %r' % (op, ca.name, cb.name))

    def truth(self, v):
        t = type(v)
        if t is bool:
            return v
        if v is None:
            return False
        if t is int or t is str or t is tuple or t is bytes:
            return bool(v)
        if t is SNum:
            if v.kind == 'bool':
                return paths.truth(v.t)
            if v.t.op == 'inf':
                return True
            return not paths.truth(T.fn('eq', v.t, T.ZERO))
        if t is OpaqueStr:
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return True
        if t is AHash:
            return True
        cls = self.B.type_of(v)
        m = cls.lookup('__bool__')
        if m is not MISSING:
            r = self.call(self.bind(m, v, cls), [])
            return self.truth(r) if not isinstance(r, bool) else r
        m = cls.lookup('__len__')
        if m is not MISSING:
            r = self.call(self.bind(m, v, cls), [])
            return self.truth(r)
        return True

    def contains(self, c, x):
        if isinstance(c, (tuple, AList)):
            for y in (c if isinstance(c, tuple) else list(c.items)):
                if self.is_(x, y) or self.truth(self.compare('eq', y, x)):
                    return True
            return False
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, OpaqueStr):
                raise Undecided('substring test on a numeric string')
            raise self.exc('TypeError', "'in <string>' requires string as left operand")
        if isinstance(c, OpaqueStr):
            # the text of a number in general position: digits with a point and no exponent
            if isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
                return True
            if x == '.':
                return True
            if x in ('e', 'E', 'inf', 'nan', 'j', '*', '(', ')', ' '):
                return False
            raise Undecided('substring test on a numeric string')
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        m = self.special(c, '__contains__')
        if m is not MISSING:
            return self.truth(self.call(m, [x]))
        for y in self.iterate(c):
            if self.is_(x, y) or self.truth(self.compare('eq', y, x)):
                return True
        return False

    # ------------------------------------------------------------ containers
    def iterate(self, v):
        if isinstance(v, tuple) or isinstance(v, range):
            return iter(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, AList):
            return self._list_iter(v)
        if isinstance(v, AIter):
            return v.it
        if isinstance(v, ASet):
            return iter([k for k, _ in v.d.entries.values()])
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, OpaqueStr):
            raise Undecided('iteration over a numeric string')
        if isinstance(v, AClass):
            raise self.exc('TypeError', "'type' object is not iterable")
        m = self.special(v, '__iter__')
        if m is not MISSING:
            r = self.call(m, [])
            if isinstance(r, AIter):
                return r.it
            return self._user_iter(r)
        g = self.special(v, '__getitem__')
        if g is not MISSING:
            return self._seq_iter(g)
        raise self.exc('TypeError', '%r object is not iterable' % self.type_of(v).name)

    def _list_iter(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _seq_iter(self, g):
        i = 0
        while True:
            try:
                x = self.call(g, [i])
            except PyRaise as e:
                if e.exc.cls.issub(self.B.EXC['IndexError']) or e.exc.cls.issub(self.B.EXC['StopIteration']):
                    return
                raise
            yield x
            i += 1
            if i > 5000:
                raise Undecided('loop bound')

    def _user_iter(self, r):
        m = self.special(r, '__next__')
        if m is MISSING:
            if isinstance(r, (AList, tuple, ADict)):
                yield from self.iterate(r)
                return
            raise self.exc('TypeError', 'iter() returned non-iterator')
        n = 0
        while True:
            try:
                x = self.call(m, [])
            except PyRaise as e:
                if e.exc.cls.issub(self.B.EXC['StopIteration']):
                    return
                raise
            yield x
            n += 1
            if n > 5000:
                raise Undecided('loop bound')

    def to_list(self, v):
        return list(self.iterate(v))

    def getitem(self, v, k):
        if isinstance(v, tuple) or isinstance(v, str) or isinstance(v, bytes) or isinstance(v, range):
            return self.B.seq_getitem(self, v, k)
        if isinstance(v, AClass):
            h = v.lookup('__class_getitem__')
            if h is not MISSING or v.module == 'builtins':
                return v
            raise self.exc('TypeError', 'type is not subscriptable')
        m = self.special(v, '__getitem__')
        if m is MISSING:
            if isinstance(v, OpaqueStr):
                raise Undecided('index of a numeric string')
            raise self.exc('TypeError', '%r object is not subscriptable' % self.type_of(v).name)
        return self.call(m, [k])

    def setitem(self, v, k, x):
        m = self.special(v, '__setitem__')
        if m is MISSING:
            raise self.exc('TypeError', '%r object does not support item assignment' % self.type_of(v).name)
        self.call(m, [k, x])

    def delitem(self, v, k):
        m = self.special(v, '__delitem__')
        if m is MISSING:
            raise self.exc('TypeError', '%r object does not support item deletion' % self.type_of(v).name)
        self.call(m, [k])

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if isinstance(c, AClass):
            if c.lookup('__instancecheck__') is not MISSING and c.module != 'builtins':
                pass
            if hasattr(c, 'instancecheck'):
                return c.instancecheck(self, v)
            return self.type_of(v).issub(c)
        if hasattr(c, 'union'):
            return any(self.isinstance(v, x) for x in c.union)
        raise self.exc('TypeError', 'isinstance() arg 2 must be a type')


_PRIM = {int, bool, str, SNum, tuple, type(None), bytes, OpaqueStr, AHash}
