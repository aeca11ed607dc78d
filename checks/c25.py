"""Functions wrapped for quantities."""
from .common import *

TITLE = 'wrapped functions receive base units and return the declared units'
LEVEL = 'other'
FLOOR = 1500
EXPLAIN = ('abstract interpretation of quantitizer around recording functions: the wrapped function is called once, with the plain magnitude in simplified units in the place of every '
           'quantity and every other argument itself; each result has the declared units and the physical value the function computed; arguments and returned arrays are unchanged')

#: argument -> None for an argument passed on as it is
ARGS = {
    "pq.Quantity(x1, lenA)": True, "pq.Quantity(x1, lenB*timA)": True, "pq.Quantity(x1, frcA/velA)": True, "pq.Quantity(x1, ratA)": True, "pq.Quantity(x1, 'dimensionless')": True,
    "pq.Quantity(n1, lenA)": True, "pq.Quantity(n1, masA**-2)": True, "pq.Quantity(i1, lenA)": True, "pq.UncertainQuantity(x1, lenA, y1)": True, "lenA": True, "pq.m": True, "frcA": True, "pq.c": True,
    "pq.Quantity(x1, 'm')": True, "pq.Quantity(x1, lenB)": True, "pq.Quantity(x1, frcA)": True, "pq.Quantity(x1, lenA)[1:]": True, "pq.Quantity(m1, lenA)": True, "pq.Quantity(m1, lenA).T": True, "pq.percent": True, "pq.Quantity(x1, lenA**0.5)": True,
    "x1": False, "n1": False, "None": False, "'text'": False, "[1.0, 2.0]": False, "(1, 2)": False, "{'a': 1}": False, "True": False, "3": False, "2.5": False, "[lenA, timA]": False, "f": False,
}
#: declared units -> {unit: exponent}
UNITS_OUT = ['lenA', 'lenB', 'pq.m', 'frcA', 'lenA/timA', 'lenA*lenB', 'masA**2/timB', 'ratA', 'pq.dimensionless', 'velA', 'pq.km', 'pq.degree', 'frcA*lenA', 'lenB**-1', 'lenA**3']

PRE = '''
from quantities.decorators import quantitizer
calls = []
asked = []
def f(*args, **kwargs):
    """doc"""
    calls.append((args, kwargs))
    return results
def h(*args, **kwargs):
    asked.append((args, kwargs))
    return declared
'''


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    W.units['speed_of_light'] = (C(299792458), {'meter': ONE, 'second': C(-1)})

    def inputs():
        A = W.arr
        return dict(x1=A('x1', (3,)), n1=W.num('n1'), i1=A('i1', (3,), 'int64'), y1=A('y1', (3,), positive=True), m1=A('m1', (2, 3)))

    def convert(v):
        """what a quantity argument has to become"""
        return W.si(v)[0], W.shape(v)

    def call(args, kws, default=None):
        """pass arguments; nothing is returned"""
        ns = W.do(PRE + 'results = ()\ndeclared = ()\ng = quantitizer(f, h)', **inputs())
        if default:
            W.do(default)
        vals = [(W.ev(a, **{k: ns[k] for k in ('x1', 'n1', 'i1', 'y1', 'm1', 'f')}), ARGS[a], a) for a in args]
        kvals = {k: (W.ev(a, **{k: ns[k] for k in ('x1', 'n1', 'i1', 'y1', 'm1', 'f')}), ARGS[a], a) for k, a in kws.items()}
        before = [W.snap(v) for v, _, _ in vals] + [W.snap(v) for v, _, _ in kvals.values()]
        src = 'g(%s)' % ', '.join(['a%d' % i for i in range(len(vals))] + ['%s=k_%s' % (k, k) for k in kvals])
        what = 'quantitizer(f, h)(%s)' % ', '.join(list(args) + ['%s=%s' % kv for kv in kws.items()]) + (' after ' + default if default else '')
        W.do('_r = ' + src, what, g=ns['g'], **{'a%d' % i: v[0] for i, v in enumerate(vals)}, **{'k_' + k: v[0] for k, v in kvals.items()})
        want(what, len(ns['calls'].items) == 1, 'calls the function %d times' % len(ns['calls'].items))
        got, kgot = ns['calls'].items[0]
        want(what, len(got) == len(vals), 'passes %d positional arguments on instead of %d' % (len(got), len(vals)))
        kgot = {k: v for k, v in kgot.entries.values()}
        want(what, set(kgot) == set(kvals), 'passes the keywords %s' % sorted(kgot))
        pairs = [('positional argument %d' % i, v, g) for i, (v, g) in enumerate(zip(vals, got))] + [('keyword argument ' + k, kvals[k], kgot[k]) for k in kvals]
        for name, (v, isq, a), g in pairs:
            if not isq:
                want('%s: %s' % (what, name), g is v or not isinstance(v, (AArr, Obj, AList)) and g == v, 'is not passed on as it is')
                continue
            if W.isq(g) or not (isinstance(g, AArr) or isinstance(g, SNum)):
                fail('%s: %s' % (what, name), 'is %s, not a plain array' % W.show(g))
            ref = simplified(v) if default else convert(v)[0]
            want_same('%s: %s' % (what, name), W.mag(g), ref)
            want_shape('%s: %s' % (what, name), W.shape(g), W.shape(v))
        for b, (v, _, a) in zip(before, vals + list(kvals.values())):
            W.unchanged(what, b, v, a)
        # the declaration is made for the same arguments
        want(what, len(ns['asked'].items) >= 1, 'does not ask for the units')

    def simplified(v):
        return W.mag(W.ev('v.simplified', v=v))

    for a in ARGS:
        S.add('argument %s' % a, call, (a,), {})
        S.add('keyword %s' % a, call, (), {'k': a})
        S.add('second argument %s' % a, call, ('pq.Quantity(x1, lenA)', a), {})
        S.add('after a plain argument %s' % a, call, ('n1', a, 'None'), {})
        S.add('sixth argument %s' % a, call, ('pq.Quantity(x1, lenA)', 'n1', a, 'None', 'pq.m', a), {k: a for k in 'kabjz'})
        S.add('with a keyword %s' % a, call, ('pq.Quantity(x1, lenB)',), {'k': a, 'j': 'pq.Quantity(x1, frcA)'})
        S.add('keyword after a plain one %s' % a, call, ('x1',), {'j': '3', 'k': a})
        for d in ("pq.set_default_units(length='cm')", "pq.set_default_units(length=lenB, time=timA)", "pq.set_default_units('cgs')"):
            if thorough or ARGS[a]:
                S.add('argument %s, %s' % (a, d), call, (a,), {'k': a}, d)
    S.add('no arguments', call, (), {})

    def base(dims):
        """scale of units when written in simplified ones"""
        return W.factor(dims)[0]

    def result(units, kinds, cont='tuple', hcont='tuple', default=None, extra=0):
        """results with declared units"""
        A = W.arr
        decl, res, src = [], [], []
        for i, (u, k) in enumerate(zip(units, kinds)):
            src.append(u if u == 'plain' else u if k == 'unit' else '2.5*' + u)
            res.append({'array': lambda: A('r%d' % i, (3,)), 'number': lambda: W.num('r%d' % i), 'unit': lambda: A('r%d' % i, (3,)), 'matrix': lambda: A('r%d' % i, (2, 3)), 'zero': lambda: A('r%d' % i, ()),
                        'list': lambda: W.ev('[a, b]', a=W.num('r%da' % i), b=W.num('r%db' % i))}[k]())
        for j in range(extra):
            res.append(A('extra%d' % j, (3,)))
        exprs = ['None' if s == 'plain' else s for s in src]
        ns = W.do(PRE + '\ndeclared = %s' % {'tuple': '(%s)' % ''.join(e + ', ' for e in exprs), 'list': '[%s]' % ', '.join(exprs)}[hcont])
        if default:
            W.do(default)
        rs = W.do('results = ' + {'tuple': '(%s)', 'list': '[%s]'}[cont] % ''.join('r%d, ' % i for i in range(len(res))), **{'r%d' % i: r for i, r in enumerate(res)})['results']
        ns = W.do(PRE + 'g = quantitizer(f, h)\n_r = g(pq.Quantity(x, lenA))', 'quantitizer(f, h)(q) with h giving %s' % ', '.join(exprs), declared=ns['declared'], results=rs, x=A('x', (3,)))
        before = [T_ for T_ in res]
        got = ns['_r']
        what = 'result of a function declared to give %s (%s)' % (', '.join(exprs), ', '.join(kinds)) + (' after ' + default if default else '')
        items = list(got) if isinstance(got, tuple) else got.items if isinstance(got, AList) else None
        want(what, items is not None and len(items) == len(res), 'is %s' % (W.show(got),))
        for i, g in enumerate(items):
            if i >= len(units) or units[i] == 'plain':
                want('%s: %d' % (what, i), g is res[i] or not isinstance(res[i], (AArr, AList)) and W.show(g) == W.show(res[i]), 'is %s and not what the function returned' % W.show(g))
                continue
            dims = dims_of(units[i])
            raw = W.mag(res[i]) if kinds[i] != 'list' else None
            W.want_q('%s: %d' % (what, i), g, None)
            W.want_units('%s: %d' % (what, i), g, dims)
            if raw is None:
                continue
            s = base(dims)
            if default:
                # what the function computed is in the simplified units chosen
                one = W.ev('(1.0*%s).simplified' % units[i])
                s0 = W.factor(W.dims(one))[0]
                want_same('%s: %d' % (what, i), T.mul(W.mag(g), s), T.mul(raw, s0))
            else:
                want_same('%s: %d' % (what, i), T.mul(W.mag(g), s), raw)
            want_shape('%s: %d' % (what, i), W.shape(g), W.shape(res[i]))
        # what the function keeps is not touched
        for i, r in enumerate(res):
            if isinstance(r, AArr):
                ref = {'array': (3,), 'unit': (3,), 'matrix': (2, 3), 'zero': ()}.get(kinds[i], (3,)) if i < len(kinds) else (3,)
                want_same('%s: array %d the function returned' % (what, i), N.val(r), T.sym('r%d' % i if i < len(kinds) else 'extra%d' % (i - len(kinds)), ref == ()))
    for u in UNITS_OUT:
        for k in ('array', 'number', 'unit', 'matrix', 'zero'):
            S.add('result in %s (%s)' % (u, k), result, (u,), (k,))
            S.add('second result in %s (%s)' % (u, k), result, ('lenB', u), ('array', k))
            S.add('after a plain result in %s (%s)' % (u, k), result, ('plain', u, 'plain'), ('array', k, 'number'))
        S.add('sixth result in %s' % u, result, ('lenB', u, 'plain', 'timA', u, u), ('array', 'number', 'array', 'unit', 'matrix', 'array'))
        S.add('result in %s, list' % u, result, (u, 'timA'), ('array', 'array'), 'list')
        S.add('result in %s, list of units' % u, result, (u, 'timA'), ('array', 'array'), 'tuple', 'list')
        S.add('result in %s, more results than units' % u, result, (u,), ('array',), 'tuple', 'tuple', None, 2)
        for d in ("pq.set_default_units(length='cm')", "pq.set_default_units(length=pq.km, time='hour')", "pq.set_default_units('cgs')"):
            S.add('result in %s, %s' % (u, d), result, (u, 'lenA'), ('array', 'number'), 'tuple', 'tuple', d)

    def same_array(units):
        r = W.arr('r', (3,))
        ns = W.do(PRE + 'results = (r, r)\ndeclared = (%s)\ng = quantitizer(f, h)\na = g(1*pq.s)\nb = g(1*pq.s)' % ', '.join('1.0*' + u for u in units), 'one array given twice', r=r)
        for call in 'ab':
            for i, u in enumerate(units):
                g = ns[call][i]
                what = 'result %d of a function that gives one array twice, as %s' % (i, ', '.join(units))
                W.want_units(what, g, dims_of(u))
                want_same(what, T.mul(W.mag(g), base(dims_of(u))), T.sym('r'))
        want_same('the array', N.val(r), T.sym('r'))
    for us in (('lenA', 'lenB'), ('lenA', 'timA'), ('lenA', 'lenA'), ('frcA', 'pq.m'), ('pq.m', 'pq.km'), ('pq.m', 'pq.m')):
        S.add('one array given twice, as %s and %s' % us, same_array, us)

    def modifies(arg):
        """a function that writes into what it is given does not change the caller's"""
        ns = W.do('''
from quantities.decorators import quantitizer
def f(a, k=None):
    """doc"""
    a *= 2
    if k is not None:
        k += 1
    return (a,)
g = quantitizer(f, lambda a, k=None: (1.0*lenA,))
''')
        q, p = W.ev(arg, x=W.arr('x', (3,))), W.ev(arg, x=W.arr('y', (3,)))
        b, c = W.snap(q), W.snap(p)
        W.do('_r = g(q, k=p)', g=ns['g'], q=q, p=p)
        W.unchanged('a wrapped function that writes into its arguments', b, q, arg)
        W.unchanged('a wrapped function that writes into its arguments', c, p, arg)
    for arg in ("pq.Quantity(x, lenA)", "pq.Quantity(x, 'm')", "pq.Quantity(x, pq.m)", "pq.Quantity(x, 'dimensionless')", "x*pq.m", "pq.UncertainQuantity(x, 'm', 0.1*x*pq.m)"):
        S.add('a function that writes into %s' % arg, modifies, arg)

    def twice():
        """a wrapped function can be called again, and wrapped again"""
        ns = W.do('''
from quantities.decorators import quantitizer
def f(a, b=1.0):
    """doc"""
    return (a*b, a)
g = quantitizer(f, lambda a, b=1.0: (1.0*lenA*lenB, 1.0*lenB))
r1 = g(q, p)
r2 = g(p, b=q)
r3 = g(q)
r4 = quantitizer(g, lambda a, b=1.0: (1.0*lenB*lenB, 1.0*lenA))(q, b=p)
''', q=W.q(W.arr('q', (3,)), 'lenA'), p=W.q(W.arr('p', (3,)), 'lenB'))
        q, p, A, B = T.sym('q'), T.sym('p'), W.r['A'], W.r['B']
        for k, first, second in (('r1', T.mul(q, A, p, B), T.mul(q, A)), ('r2', T.mul(q, A, p, B), T.mul(p, B)), ('r3', T.mul(q, A), T.mul(q, A))):
            W.want_units(k, ns[k][0], {'lenA': ONE, 'lenB': ONE})
            W.want_units(k, ns[k][1], {'lenB': ONE})
            want_same(k, T.mul(W.mag(ns[k][0]), A, B), first)
            want_same(k, T.mul(W.mag(ns[k][1]), B), second)
    S.add('called again', lambda: twice())

    def kwargs_of_caller():
        ns = W.do(PRE + 'results = ()\ndeclared = ()\nd = {"k": q, "j": 1}\ng = quantitizer(f, h)\ng(**d)\nl = [q, 2]\ng(*l)', q=W.q(W.arr('q', (3,)), 'lenA'))
        W.want_units('the keyword of the caller', W.ev('d["k"]', d=ns['d']), {'lenA': ONE})
        want_same('the keyword of the caller', W.mag(W.ev('d["k"]', d=ns['d'])), T.sym('q'))
        W.want_units('the argument of the caller', W.ev('l[0]', l=ns['l']), {'lenA': ONE})
    S.add("the caller's dictionary", kwargs_of_caller)

    def refuse(units):
        """results of another dimension than the declared one cannot be told from
        others; wrong declarations are refused where they can be seen"""
        ns = W.do(PRE + 'results = (pq.Quantity(r, timA),)\ndeclared = (1.0*lenA,)\ng = quantitizer(f, h)', r=W.arr('r', (3,)))
        W.refuse('g(1*pq.m)', ('ValueError',), 'a result in units of another dimension than declared', g=ns['g'])
    S.add('a result in other units', refuse, ())
    return S.items, {}
