"""Operators, functions and methods that give something new."""
import re

from .common import *
from .actions import PURE, operands

TITLE = 'pure operations leave their operands alone and share no unit state'
LEVEL = 'other'
FLOOR = 3000
EXPLAIN = ('effect and alias analysis by abstract interpretation: on every path, a new result leaves magnitude, units, uncertainty and flags of every operand as they were, and '
           'changing the units of the result in place, or a dimensionality object obtained from it, changes neither the operands nor the units nor another result')

#: ways to change the units of a result, or something obtained from it, in place
CHANGES = {
    'units': 'r.units = lenB',
    'units (string)': "r.units = 'mm'",
    'units (time)': "r.units = timB",
    'units (number)': "r.units = ratB",
    'multiply': 'r *= timB',
    'divide': 'r /= timB',
    'floor divide': 'r //= timB',
    'power': 'r **= 2',
    'dimensionality *=': 'k = r.dimensionality; k *= timB.dimensionality',
    'dimensionality /=': 'k = r.dimensionality; k /= timB.dimensionality',
    'dimensionality **=': 'k = r.dimensionality; k **= 2',
    'dimensionality item': 'k = r.dimensionality; k[timB] = 3',
    'dimensionality del': 'k = r.dimensionality; del k[lenA]',
    'dimensionality pop': 'k = r.dimensionality; k.popitem()',
    'dimensionality clear': 'k = r.dimensionality; k.clear()',
    'dimensionality update': 'k = r.dimensionality; k.update(timB.dimensionality)',
    'simplified dimensionality': 'k = r.dimensionality.simplified; k *= timB.dimensionality',
    'units object': 'k = r.units; k *= 2',
    'units of units': 'k = r.units; k.units = lenB',
    'units dimensionality': 'k = r.units.dimensionality; k *= timB.dimensionality',
    'the object *=': 'r *= timB.dimensionality',
    'the object item': 'r[timB] = 5',
    'the object clear': 'r.clear()',
    'elements': 'k = r[0].dimensionality; k *= timB.dimensionality',
    'uncertainty': 'k = r.uncertainty.dimensionality; k *= timB.dimensionality',
}
FREE = {'copy', 'pickle'}


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    UNITOBJS = {k: W.ns[k] for k in ('lenA', 'lenB', 'timA', 'timB', 'ratA', 'velA')}
    for u in ('m', 's', 'dimensionless', 'percent', 'c', 'degree', 'radian'):
        UNITOBJS['pq.' + u] = W.I.getattr(W.pq, u)

    def observe(ns, simplified=True):
        out = {k: (v, W.snap(v)) for k, v in ns.items() if k not in FREE}
        out.update({k: (v, [W.snap(v), W.dims(W.I.getattr(v, 'simplified')) if simplified else None]) for k, v in UNITOBJS.items()})
        return out

    def used(src, ns):
        """the operands named in a fragment, with what they are views of"""
        names = set(re.findall(r'[A-Za-z_]+', src))
        if 'v' in names:
            names.add('w')
        return {k: v for k, v in ns.items() if k in names and k not in FREE}

    def unchanged(what, before):
        for k, (v, b) in before.items():
            if k in UNITOBJS:
                W.unchanged(what, b[0], v, k)
                if b[1] is not None:
                    want_dims('%s: %s.simplified' % (what, k), W.dims(W.I.getattr(v, 'simplified')), b[1])
            else:
                W.unchanged(what, b, v, k)

    def pure(src):
        ns = operands(W, src)
        before = observe(ns)
        flags = {k: v.writeable for k, v in ns.items() if isinstance(v, AArr)}
        try:
            r = W.run('_r = ' + src, **ns)['_r']
        except spec.PyRaise as e:
            unchanged('%s, which raised %s' % (src, e.exc.cls.name), before)
            return
        unchanged(src, before)
        for k, f in flags.items():
            want(src, ns[k].writeable == f, 'changes whether %s can be written' % k)

    def seen(v):
        """what can be seen of a quantity, not its elements (they may be shared)"""
        s = {'units': W.dims(v), 'printed': str(W.run('_r = str(v.dimensionality)', v=v)['_r'])}
        if v.cls.name == 'UncertainQuantity':
            s['units of the uncertainty'] = W.dims(W.unc(v))
        if not any(c.name == 'UnitQuantity' for c in v.cls.mro):
            s['units object'] = W.show(W.I.getattr(v, 'units'))
        return s

    def change(src, n):
        ns = operands(W, src)
        try:
            W.run('_r = ' + src, **ns)
        except spec.PyRaise:
            return
        for i, (name, code) in enumerate(CHANGES.items()):
            if not thorough and (i + n) % 3:
                continue
            ns = operands(W, src)
            try:
                r = W.run('_r = ' + src, **ns)['_r']
                again = W.run('_r = ' + src, **ns)['_r']
            except spec.PyRaise:
                return
            if isinstance(r, tuple) and len(r) and W.isq(r[0]):
                r, again = r[0], again[0]
            if isinstance(r, AList) and r.items and W.isq(r.items[0]):
                r, again = r.items[0], again.items[0]
            if not (W.isq(r) or isinstance(r, ADict)):
                return
            if any(r is v for v in ns.values()) or any(r is v for v in UNITOBJS.values()):
                if name.startswith(('units', 'multiply', 'divide', 'floor', 'power', 'the object')):
                    continue            # (the operand itself; C26 is about other objects)
            owner = [v for v in ns.values() if v is r]
            before = {k: (v, seen(v)) for k, v in list(used(src, ns).items()) + list(UNITOBJS.items()) if W.isq(v) and v is not r}
            whole = observe(used(src, ns), simplified=False)
            if W.isq(again):
                sa = seen(again)
            elif isinstance(again, ADict):
                sa = W.dims(again)
            rs = seen(r) if W.isq(r) else W.dims(r)
            what = 'r = %s; %s' % (src, code)
            try:
                W.run(code, r=r)
                ok = True
            except spec.PyRaise:
                ok = False
            sharers = [v for v in ns.values() if W.isq(r) and isinstance(v, AArr) and v.buf is r.buf]
            shares = any(W.isq(v) for v in sharers)
            for k, (v, b) in before.items():
                now = seen(v)
                d = spec.snapdiff(b, now)
                if d:
                    fail(what, 'changed %s: %s' % (k, d))
                done('units unchanged')
            if not shares:
                # nor the values of the operands
                for k, (v, b) in whole.items():
                    if v is r or any(v is x for x in sharers):
                        continue
                    W.unchanged(what, b[0] if k in UNITOBJS else b, v, k)
            elif code.startswith('r.units') and ok and spec.snapdiff(rs, seen(r)):
                fail(what, 'converted data that it shares with an operand in place')
            if again is not r:
                d = spec.snapdiff(sa, seen(again) if W.isq(again) else W.dims(again))
                if d:
                    fail(what, 'changed another result of the same operation: %s' % d)
                done('units unchanged')
            if 'dimensionality' in name or name.startswith(('units object', 'units of', 'units dim', 'elements', 'uncertainty')):
                if W.isq(r):
                    d = spec.snapdiff(rs, seen(r))
                    if d:
                        fail(what, 'changed the quantity the object was obtained from: %s' % d)
                    done('units unchanged')
    for n, src in enumerate(PURE):
        S.add('pure: ' + src, pure, src)
        S.add('independent: ' + src, change, src, n)

    def operator(op, a, b):
        """binary operators over all kinds of operands"""
        kinds = {
            'float': "pq.Quantity(x%s, lenA)", 'other': "pq.Quantity(x%s, lenB)", 'time': "pq.Quantity(x%s, timA)", 'number': "pq.Quantity(x%s, 'dimensionless')", 'percent': "pq.Quantity(x%s, 'percent')",
            'scalar': "pq.Quantity(n%s, lenA)", 'scalar other': "pq.Quantity(n%s, lenB)", 'integer': "pq.Quantity(i%s, lenB)", 'view': "pq.Quantity(x%s, lenA)[:]", 'derived': "pq.Quantity(x%s, frcA/velA)",
            'uncertain': "pq.UncertainQuantity(x%s, lenA, y%s)", 'uncertain other': "pq.UncertainQuantity(x%s, lenB, y%s)", 'uncertain time': "pq.UncertainQuantity(x%s, timA, y%s)",
            'uncertain scalar': "pq.UncertainQuantity(n%s, lenA, 0.5)", 'unit': 'lenA', 'unit other': 'lenB', 'unit time': 'timA', 'constant': 'pq.c', 'plain': 'x%s', 'plain number': 'n%s', 'two': '2', 'read-only': 'pq.Quantity(z%s, lenA)'}
        ns = {}
        for s in 'ab':
            z = W.arr('z' + s, (3,))
            z.writeable = False
            ns.update({'x' + s: W.arr('x' + s, (3,)), 'n' + s: W.num('n' + s), 'i' + s: W.arr('i' + s, (3,), 'int64'), 'y' + s: W.arr('y' + s, (3,), positive=True), 'z' + s: z})
        va = W.ev(kinds[a].replace('%s', 'a'), **ns)
        vb = W.ev(kinds[b].replace('%s', 'b'), **ns)
        full = {'a': va, 'b': vb}
        before = observe({k: v for k, v in list(full.items()) + list(ns.items()) if k in 'ab' or any(k[1] == s and '%s%%s' % k[0] in kinds[o] for s, o in (('a', a), ('b', b)))}, simplified=thorough)
        src = op if '(' in op else 'a %s b' % op
        try:
            r = W.run('_r = ' + src, a=va, b=vb)['_r']
        except spec.PyRaise as e:
            unchanged('%s with %s and %s, which raised %s' % (src, a, b, e.exc.cls.name), before)
            return
        unchanged('%s with %s and %s' % (src, a, b), before)
        if W.isq(r) and r is not va and r is not vb:
            for k, v in list(before.items()):
                if isinstance(v[0], AArr) and v[0].buf is r.buf and not W.isq(v[0]):
                    del before[k]           # (a plain array the result is a view of)
            for code in ('r.units = lenB', 'r *= timB', 'r **= 2', 'k = r.dimensionality; k *= timB.dimensionality', 'k = r.units.dimensionality; k *= timB.dimensionality'):
                try:
                    W.run(code, r=r)
                except spec.PyRaise:
                    pass
                unchanged('r = %s with %s and %s; %s' % (src, a, b, code), before)
        return

    kinds = ['float', 'other', 'time', 'number', 'percent', 'scalar', 'scalar other', 'integer', 'view', 'derived', 'uncertain', 'uncertain other', 'uncertain time', 'uncertain scalar', 'unit', 'unit other', 'unit time',
             'constant', 'plain', 'plain number', 'two', 'read-only']
    W.units['speed_of_light'] = (C(299792458), {'meter': ONE, 'second': C(-1)})
    ops = ['+', '-', '*', '/', '//', '%', '**', '<', '>=', '==', '!=', 'np.hypot(a, b)', 'np.maximum(a, b)', 'pq.arctan2(a, b)', 'np.multiply(a, b)', 'np.add(a, b)', 'pq.Quantity(a, b)', 'divmod(a, b)']
    for op in ops:
        for a in kinds:
            for b in kinds:
                if not thorough and (kinds.index(a) * 7 + kinds.index(b) * 3 + ops.index(op)) % 3:
                    continue
                S.add('%s: %s, %s' % (op, a, b), operator, op, a, b)
    return S.items, {}
