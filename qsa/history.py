"""What may have happened before.

The scenarios of every check are analysed in a world in which quantities were
already created, converted, printed, refused and changed.  What an operation
gives must not depend on it: caches, shared objects and settings that are not
restored show up as wrong results.
"""
OBJECTS = {
    'a': 'pq.Quantity(xa, lenA)', 'b': 'pq.Quantity(xb, lenB)', 'n': 'pq.Quantity(xn, "dimensionless")', 't': 'pq.Quantity(xt, timA)', 's': 'pq.Quantity(k, lenA)',
    'f': 'pq.Quantity(xf, frcA/velA)', 'u': 'pq.UncertainQuantity(xa, lenA, xe)', 'i': 'pq.Quantity(xi, lenA)', 'm': 'pq.Quantity(xa, "m")', 'z': 'pq.Quantity(xn, ratA)',
    'c': 'pq.Quantity(xa, lenC)', 'd': 'pq.Quantity(xn, pq.degree)',
}
#: with q one of the objects
READ = ['r = q.units', 'r = q.simplified', 'r = q.rescale(q.units)', 'r = q*1', 'r = q*q', 'r = q + q', 'r = q - q', 'r = q/q', 'r = q**2', 'r = -q', 'r = abs(q)', 'r = q.units.simplified',
        'r = q.copy()', 'r = q.astype(float)', 'r = q[:2]', 'r = q.units**2', 'r = q.units*q.units', 'r = q.units/timA', 'r = q.sum()', 'r = q.max()', 'r = q.reshape(-1)',
        'r = q.rescale(q.simplified.units)', 'r = pq.Quantity(q, q.units)', 'r = copy.copy(q)', 'r = copy.deepcopy(q)', 'r = q*pq.dimensionless', 'r = timA*q', 'r = 1/q', 'r = np.sqrt(q)']
#: what is then done to the result
WRITE = ['r *= 3', 'r *= timB', 'r.units = "mm"', 'r[...] = r*5', 'r += r', 'r.fill(7)', 'r **= 2', 'k = r.dimensionality; k.clear()', 'k = r.units; k *= 2', 'k = r.dimensionality; k[timB] = 5']
OTHERS = ['q.dimensionality.clear()', 'k = q.dimensionality; k *= timB.dimensionality', 'str(q)', 'repr(q)', 'hash(q.dimensionality)', 'q.dimensionality.latex', 'q.dimensionality.html',
          'q.dimensionality.unicode', 'q.dimensionality.string', 'q == a', 'q < a', 'q != t', 'q.dimensionless_magnitude', 'q + t', 'q.units = timA', 'q.rescale(timA)', 'q.rescale("nonsense")',
          'q[0] = t', 'q.tolist()', 'np.sin(q)', 'pq.sin(q)', 'np.add(q, q)', 'pickle.loads(pickle.dumps(q))', 'k = q.dimensionality.simplified; k[timB] = 3',
          'k = q.units.dimensionality; k[lenB] = 3', 'q.rescale("mm")', 'q.rescale(lenB)', 'q.rescale(pq.m)', 'q.rescale(pq.dimensionless)']
ONCE = ['''
pq.set_default_units('cgs')
for q in objects:
    q.simplified
lenA.simplified, frcA.simplified, pq.N.simplified, lenA.dimensionality.simplified
pq.set_default_units(length=lenB, time=timB, mass=masA)
for q in objects:
    q.simplified
lenA.simplified, frcA.simplified, pq.N.simplified, frcA.dimensionality.simplified
''', "pq.set_default_units(length='s')", "pq.set_default_units('nonsense')", "pq.set_default_units('SI')", '''
pq.markup.config.use_unicode = True
for q in objects:
    str(q), repr(q), str(q.dimensionality)
str(lenA), repr(frcA)
''', 'pq.markup.config.use_unicode = False', '''
for s in ('lenA', 'lenA*timA', 'm/s**2', 'lenB^2', '%', '', 'dimensionless', 'lenA/(timA*masA)', 'N', 'kg*m'):
    r = pq.unit_registry[s]
    pq.Quantity(3.0, s)
    r = r*1
    r *= 2
''', "pq.unit_registry['nonsense']", "pq.unit_registry['lenA'] = timA", "pq.UnitQuantity('lenA', 3*timA)", "lenA.units = lenB", 'lenA *= 2', 'lenA[...] = 4',
        'r = lenA.simplified; r *= 5; r *= timB', 'r = frcA.simplified; r *= 5; r.units = "g*m/s**2"', 'r = pq.N.simplified; r *= 2', 'r = lenA*1; r *= 3', 'r = lenA**1; r *= 2',
        'r = pq.m*1.0; r *= 2', 'r = lenA.dimensionality; r.clear()', 'r = lenA._reference*1', 'r = 1*pq.c; r *= 2', 'r = pq.c.simplified; r *= 2', 'r = pq.degree*1; r *= 2',
        'r = a.units*t.units; r *= 7', 'r = (a*t).units; r.units = "mm*s"']


def run(W, Undecided, PyRaise):
    """None of it has to succeed."""
    from . import paths

    def attempt(src, **kw):
        try:
            return W.run(src, **kw)
        except (PyRaise, Undecided):
            return None
    paths.generic = False
    ns = dict(xa=W.arr('ha', (3,), positive=True), xb=W.arr('hb', (3,), positive=True), xn=W.arr('hn', (3,), positive=True), xt=W.arr('ht', (3,), positive=True),
              xf=W.arr('hf', (3,), positive=True), xe=W.arr('he', (3,), positive=True), xi=W.arr('hi', (3,), 'int64', positive=True), k=W.num('hk', positive=True))
    for m in ('copy', 'pickle'):
        ns[m] = W.I.import_module(m)
    for n, (k, src) in enumerate(OBJECTS.items()):
        r = attempt('r = ' + src, **ns)
        if r is not None:
            ns['o_' + k] = r['r']
    objs = {k[2:]: v for k, v in ns.items() if k.startswith('o_')}
    mods = {m: ns[m] for m in ('copy', 'pickle')}
    pre = {k: objs[k] for k in 'at' if k in objs}
    for n, (k, src) in enumerate(OBJECTS.items()):
        if k not in objs:
            continue
        for j, x in enumerate(READ):
            if n and (j + n) % 3:
                continue
            attempt(x + '; ' + WRITE[(j + n) % len(WRITE)], **{**mods, **pre, 'q': objs[k]})
            if not (j + n) % 2:
                r = attempt('r = ' + src, **ns)
                if r is not None:
                    objs[k] = ns['o_' + k] = r['r']
        for j, x in enumerate(OTHERS):
            if n and (j + n) % 2:
                continue
            attempt(x, **{**mods, **pre, 'q': objs[k]})
    for x in ONCE:
        attempt('objects = [%s]\n' % ', '.join(objs) + x, **{**mods, **objs})
    paths.generic = True
