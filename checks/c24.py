"""Stubs against the modules they describe."""
import ast
import os

from .common import *

TITLE = 'type stubs describe what the package exports'
LEVEL = 'other'
FLOOR = 500
EXPLAIN = ('syntax-tree comparison: every variable a stub declares is a name of the abstractly evaluated module with exactly the declared class, every unit bound by a '
           'unit module is declared, and every class, method, property, parameter and function a stub declares exists in the source')


def declared(body):
    """name -> node of the declarations of a stub (both branches of tests)"""
    for n in body:
        if isinstance(n, (ast.If, ast.Try)):
            yield from declared(n.body)
            yield from declared(n.orelse)
            for h in getattr(n, 'handlers', []):
                yield from declared(h.body)
        else:
            yield n


def imported(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def build(root, tier):
    S = Suite(root)
    W = S.W
    I = W.I
    base = os.path.join(root, 'quantities')
    stubs, mods = {}, {}
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            name = 'quantities.' + os.path.relpath(p, base).rsplit('.', 1)[0].replace(os.sep, '.')
            if f.endswith('.pyi'):
                stubs[name] = p
            elif f.endswith('.py'):
                mods[name] = p
    trees = {n: ast.parse(open(p, encoding='utf-8').read()) for n, p in stubs.items()}
    sources = {n: ast.parse(open(p, encoding='utf-8').read()) for n, p in mods.items()}
    isunit = lambda x: isinstance(x, AArr) and any(c.name == 'UnitQuantity' for c in x.cls.mro)

    def module(name):
        try:
            return I.import_module(name)
        except spec.PyRaise as e:
            fail(name, 'cannot be imported: %s' % e.exc.cls.name)

    def units(name):
        """the units the module binds itself are declared with their class"""
        m = module(name)
        want('the stub of ' + name, name in stubs, 'is missing')
        decl = {}
        for n in declared(trees[name].body):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                want('%s.pyi: %s' % (name, n.target.id), n.target.id not in decl or decl[n.target.id] == ast.unparse(n.annotation), 'is declared twice, as %s and %s' % (
                    decl.get(n.target.id), ast.unparse(n.annotation)))
                decl[n.target.id] = ast.unparse(n.annotation)
        foreign = imported(sources[name])
        for v, x in sorted((k, x) for k, x in m.ns.items() if isinstance(k, str)):
            if not isunit(x) or v.startswith('_') or v in foreign:
                continue
            want('%s.%s' % (name, v), v in decl, 'is not declared in the stub')
            want('%s.%s' % (name, v), decl[v].split('.')[-1].strip('\'"') == x.cls.name, 'is declared %s and is a %s' % (decl[v], x.cls.name))

    def variables(name):
        m = module(name)
        st = trees[name]
        names = {}
        for n in declared(st.body):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    names[a.asname or a.name] = a.name
        for n in declared(st.body):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                v, a = n.target.id, ast.unparse(n.annotation).strip('\'"')
                if v == '__all__':
                    continue
                want('%s.pyi: %s' % (name, v), v in m.ns, 'does not exist in the module')
                x = m.ns[v]
                cls = a.split('.')[-1]
                known = cls in names or any(isinstance(k, ast.ClassDef) and k.name == cls for k in st.body) or not cls.isidentifier() or cls in ('int', 'float', 'str', 'bool', 'dict', 'list', 'tuple')
                want('%s.pyi: %s' % (name, v), known or '.' in a, 'is declared as %s, which the stub does not know' % a)
                if cls.isidentifier() and cls not in ('Any', 'Callable', 'object', 'Final'):
                    want('%s.pyi: %s' % (name, v), W.cls(x) == names.get(cls, cls) or cls == 'UnitRegistry', 'is declared %s and is a %s' % (a, W.cls(x)))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id != '__all__' and name in sources:
                        want('%s.pyi: %s' % (name, t.id), t.id in m.ns, 'does not exist in the module')

    def imports(name):
        """what a stub imports exists"""
        for n in ast.walk(trees[name]):
            if isinstance(n, ast.ImportFrom):
                pkg = name.split('.')
                target = (n.module or '').split('.') if not n.level else pkg[:-n.level] + (n.module.split('.') if n.module else [])
                if target[0] != 'quantities':
                    continue
                t = '.'.join(target)
                for a in n.names:
                    if t in stubs and t not in mods:
                        have = {k.targets[0].id for k in trees[t].body if isinstance(k, ast.Assign)} | {k.name for k in trees[t].body if isinstance(k, (ast.ClassDef, ast.FunctionDef))}
                        want('%s.pyi imports %s from %s' % (name, a.name, t), a.name in have, 'is not there')
                    elif a.name != '*':
                        m = module(t)
                        want('%s.pyi imports %s from %s' % (name, a.name, t), a.name in m.ns or '%s.%s' % (t, a.name) in mods, 'is not there')

    def params(f):
        a = f.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg, a.kwarg

    def same_params(what, node, fn):
        """the declared parameters can be given to the function"""
        src = getattr(fn, 'node', None)
        args = getattr(src, 'args', None)
        if args is None:
            return
        p, ko, va, kw = params(src)
        q, qko, qva, qkw = params(node)
        if va or kw:            # (a wrapper)
            return
        for i, n in enumerate(q):
            if n.startswith('__') or i == 0 and n in ('self', 'cls'):
                continue
            want(what, n in p or i < len(p) and node.name.startswith('__') and node.name not in ('__new__', '__init__'), 'has no parameter %s (it has %s)' % (n, ', '.join(p)))
        done('signature')

    def classes(name):
        m = module(name)
        for n in declared(trees[name].body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                want('%s.pyi: %s' % (name, n.name), n.name in m.ns, 'does not exist in the module')
                same_params('%s.%s' % (name, n.name), n, m.ns[n.name])
            elif isinstance(n, ast.ClassDef):
                if name == 'quantities.registry' and n.name == 'UnitRegistry':
                    pass
                want('%s.pyi: class %s' % (name, n.name), n.name in m.ns, 'does not exist in the module')
                c = m.ns[n.name]
                mro = [k.name for k in c.mro]
                for b in n.bases:
                    bn = ast.unparse(b).split('.')[-1]
                    want('%s.pyi: class %s' % (name, n.name), bn in mro or bn == 'NDArray' and 'ndarray' in mro, 'is not derived from %s' % bn)
                for k in declared(n.body):
                    v = k.name if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)) else k.target.id if isinstance(k, ast.AnnAssign) else None
                    if v is None:
                        continue
                    found = next((kk.ns[v] for kk in c.mro if v in kk.ns), MISSING)
                    if found is MISSING:
                        # set on instances, or something NumPy's or Python's class has
                        inst = any(isinstance(x, ast.Attribute) and x.attr == v and isinstance(x.ctx, ast.Store) for x in ast.walk(sources[name]))
                        if inst or any(kk.module is None for kk in c.mro if hasattr(kk, 'module')) and v in NDARRAY:
                            continue
                        fail('%s.pyi: %s.%s' % (name, n.name, v), 'does not exist')
                    prop = any(ast.unparse(d).split('.')[-1] in ('property', 'setter') for d in getattr(k, 'decorator_list', []))
                    isprop = found.__class__.__name__ in ('Property', 'AProperty') or type(found).__name__.lower().endswith('property')
                    if isinstance(k, ast.FunctionDef):
                        want('%s.pyi: %s.%s' % (name, n.name, v), prop == isprop, 'is declared as a %s and is a %s' % ('property' if prop else 'method', type(found).__name__))
                        if not prop:
                            same_params('%s.%s.%s' % (name, n.name, v), k, getattr(found, 'fn', None) or getattr(found, 'func', None) or found)
                done('class')

    MISSING = object()
    NDARRAY = {'__%s__' % x for x in 'hash repr str eq ne lt le gt ge getitem setitem rpow rmod imod mod pow'.split()}
    for name in sorted(mods):
        if name.startswith('quantities.units.') and not name.endswith('__init__'):
            S.add('units of ' + name, units, name)
    for name in sorted(stubs):
        S.add('imports of %s.pyi' % name, imports, name)
        if name in mods:
            S.add('variables of %s.pyi' % name, variables, name)
            S.add('classes and functions of %s.pyi' % name, classes, name)
        else:
            def orphan(name=name):
                want('%s.pyi' % name, name.startswith('quantities.typing'), 'describes a module that does not exist')
            S.add('module of %s.pyi' % name, orphan)
    return S.items, {}
