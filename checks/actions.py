"""Program fragments over operands of known units, for the checks that ask the
same question of every operation.

q (lenA), p (lenB), t (timA), d (dimensionless): three elements each; w (lenA) and v = w[1:], a view of it; x a plain array; n a plain number;
s, r scalars in lenA and timA; u (uncertain, lenA), z (uncertain, timA); i (integers, lenA); o an output array in lenA"""
import re

#: may be refused (most are)
REFUSED = '''
q.units = t.units
q.units = 't'
q.units = 'nonsense'
q.units = 3
q.units = None
q.units = pq.Quantity(x, 'm')
q.units = 2*pq.m
q.units = 'timA'
v.units = lenB
v.units = timA
v *= t
v *= lenA
v /= t
v //= t
v **= 2
v **= d
v += t
v -= t
v %= t
v += p
q += t
q -= t
q %= t
q += n
q -= x
q **= t
q **= x
q **= q
q *= t
q *= x[:2]
q /= t[:2]
q //= q[:2]
q += p[:2]
q -= p[:2]
q %= p[:2]
q **= x[:2]
q *= 'a'
q /= None
q += 'a'
q -= None
q **= 'a'
q.fill(t)
q.fill(n)
q.fill('a')
q.fill(x)
q.fill(q)
v.fill(t)
v.fill(p)
q[0] = t[0]
q[0] = n
q[0] = s
q[1:] = t
q[0] = 'a'
q[5] = s
q[0:2] = p
q[[0, 5]] = p[:2]
q[...] = t
q['a'] = s
q.put([0], t)
q.put([0], x)
q.put([0], n)
q.put(0, p)
q.put([0], s)
q.put([7], s)
q.put('a', s)
q.rescale(t)
q.rescale('s')
q.rescale('nonsense')
q.rescale(3)
q.rescale(2*pq.m)
q.rescale(None)
q.rescale()
q.rescale(x)
q.rescale(pq.Quantity(x, 'm'))
q.rescale_preferred()
q.rescale(pq.s.dimensionality)
q.rescale(pq.m.dimensionality)
q.searchsorted(t)
q.searchsorted(x)
q.searchsorted(n)
q.searchsorted(p)
q.searchsorted(s)
np.searchsorted(q, t)
q.clip(t, t)
q.clip(n, n)
q.clip()
q.clip(None, t)
q.clip(s, r)
np.clip(q, n, n)
q.sum(out=x)
q.cumsum(out=x)
q.mean(out=x)
q.var(out=x)
q.std(out=x)
q.prod(out=x)
q.cumprod()
q.prod()
q.prod(axis=5)
q.cumprod(out=x)
q.min(out=x)
q.max(out=x)
q.ptp(out=x)
q.trace(out=x)
q.round(out=x)
q.argmax(out=q)
q.argmin(out=t)
q.take([0], out=x)
q.take([7])
q.compress([True, False, True], out=x)
q.clip(s, s, out=x)
q.nanmean(out=x)
q.mean(axis=7)
q.sum(axis=7)
q.cumsum(axis=7)
q.astype('foo')
pq.m.units = 's'
pq.m.units = pq.m
lenA.units = lenB
pq.m[0] = 1
pq.m[...] = 2
lenA += lenA
lenA -= lenA
lenA *= 2
lenA /= 2
lenA //= 2
lenA %= lenA
lenA **= 2
lenA.fill(2)
lenA.put(0, 2)
lenA.setflags(write=True)
lenA.sort()
lenA.set_default_unit = 3
lenA.name = 'x'
lenA.symbol = 'x'
pq.c.units = 'm'
pq.c += pq.c
pq.c[...] = 3
pq.constants.electron_mass.units = 'g'
np.add(q, q, out=lenA)
np.multiply(q, n, out=pq.m)
pq.Quantity(x, 'nonsense')
pq.Quantity(x, 's*')
pq.Quantity(x, '3*m')
pq.Quantity(x, 'm+m')
pq.Quantity(x, '__import__("os")')
pq.Quantity(x, 'm.real')
pq.Quantity(x, 2*pq.m)
pq.Quantity(x, q)
pq.Quantity(x, s)
pq.Quantity(x, n)
pq.Quantity(x, x)
pq.Quantity(x, None)
pq.Quantity(x, [pq.m])
pq.Quantity(q, 's')
pq.Quantity(q, t.units)
pq.Quantity(q, 'mm')
pq.Quantity('a', 'm')
pq.Quantity(x, b'm')
pq.unit_registry['nonsense']
pq.unit_registry['m +']
pq.unit_registry[3]
pq.unit_registry[None]
pq.unit_registry['m'] = pq.s
pq.unit_registry['m'] = 3
pq.unit_registry[3] = pq.s
pq.unit_registry['']
pq.quantity.validate_unit_quantity(2*pq.m)
pq.quantity.validate_unit_quantity(q)
pq.quantity.validate_unit_quantity(3)
pq.quantity.validate_unit_quantity('m')
pq.quantity.validate_unit_quantity(pq.m)
pq.quantity.validate_dimensionality(2*pq.m)
pq.quantity.validate_dimensionality(q)
pq.quantity.validate_dimensionality(3)
pq.quantity.validate_dimensionality('m')
pq.quantity.validate_dimensionality([])
pq.quantity.get_conversion_factor(pq.m, pq.s)
pq.quantity.get_conversion_factor(pq.m, 3)
pq.UnitQuantity(3)
pq.UnitQuantity(None)
pq.UnitQuantity('newU', 3*pq.m, symbol=3)
pq.UnitQuantity('newU', 3*pq.m, 'qU', 4)
pq.UnitQuantity('newU', 3*pq.m, aliases=3)
pq.UnitQuantity('newU', 3*pq.m, aliases=[3])
pq.UnitQuantity('newU', 'nonsense')
pq.UnitQuantity('newU', q)
pq.UnitQuantity('newU', t)
pq.UnitQuantity('newU', [1, 2])
pq.UnitQuantity('newU', n)
pq.UnitQuantity(b'newU', pq.m)
pq.UnitQuantity('m', 3*pq.s)
pq.UnitQuantity('newU', 3*pq.m, symbol='m')
pq.UnitQuantity('newU', 3*pq.m, aliases=['m'])
pq.UnitLength('newU', 3*pq.s)
pq.UnitLength('newU', 3)
pq.UnitTime('newU', pq.m)
pq.UnitConstant('newC', 3, symbol=3)
pq.UnitConstant(3, 3*pq.m)
pq.CompoundUnit('m**')
pq.CompoundUnit('nonsense')
pq.CompoundUnit(3)
pq.set_default_units('foo')
pq.set_default_units(None)
pq.set_default_units(3)
pq.set_default_units(length='s')
pq.set_default_units(length=pq.s)
pq.set_default_units(length=3)
pq.set_default_units(length='nonsense')
pq.set_default_units('SI', mass=pq.m)
pq.set_default_units(length=2*pq.m)
pq.set_default_units(length=q)
pq.set_default_units(temperature='m')
pq.set_default_units(current=pq.s)
pq.set_default_units(information=pq.s)
pq.set_default_units(currency=pq.s)
pq.set_default_units(time='m')
pq.set_default_units(substance='m')
pq.set_default_units(luminous_intensity='m')
pq.UnitLength.set_default_unit(pq.s)
pq.UnitLength.set_default_unit('s')
pq.UnitLength.set_default_unit(3)
pq.UnitLength.set_default_unit(q)
pq.UnitMass.set_default_unit(pq.m)
pq.m.dimensionality + pq.s.dimensionality
pq.m.dimensionality - pq.s.dimensionality
pq.m.dimensionality ** q
pq.m.dimensionality ** x
pq.m.dimensionality ** 'a'
pq.m.dimensionality < pq.s.dimensionality
pq.m.dimensionality == 3
pq.dimensionality.Dimensionality({3: 1})
q.dimensionality + 3
q.dimensionality - None
q.dimensionality * 3
q.dimensionality / 'm'
q.dimensionality * q
q.dimensionality / [1]
k = q.dimensionality.copy(); k *= 3
k = q.dimensionality.copy(); k /= 'm'
k = q.dimensionality.copy(); k += None
k = q.dimensionality.copy(); k -= 3
k = q.dimensionality.copy(); k **= 'a'
k = q.dimensionality.copy(); k *= q
q.dimensionality + {}
q.dimensionality * {}
q.dimensionality ** None
q.dimensionality ** [1, 2]
k = q._dimensionality.copy(); k += t._dimensionality
k = q._dimensionality.copy(); k -= t._dimensionality
k = q._dimensionality.copy(); k **= x
pq.UncertainQuantity(x, 'm', t)
pq.UncertainQuantity(x, 'm', x[:2])
pq.UncertainQuantity(x, 'm', q[:2])
pq.UncertainQuantity(x, 'm', 'a')
pq.UncertainQuantity(x, 'nonsense', x)
pq.UncertainQuantity(u, 's')
pq.UncertainQuantity(u, 's', x)
pq.UncertainQuantity(q, lenA, t)
pq.UncertainQuantity(q, timA, q)
u.uncertainty = t
u.uncertainty = x[:2]
u.uncertainty = n
u.uncertainty = q[:1]
u.uncertainty = 'a'
u.set_uncertainty(t)
u.set_uncertainty(x[:2])
u.units = 's'
u.units = t.units
u.units = 'nonsense'
u + t
u - t
u % t
t + u
u + z
u - z
u ** x
u ** t
u ** u
u.rescale('s')
u.rescale(t)
u += t
u -= z
u += z
u *= 'a'
u **= x
u **= t
u *= x[:2]
u /= z[:2]
u[0] = t[0]
u[1:].units = 'mm'
u[1:] *= t[1:]
u.sum(out=x)
u == t
u < t
u.fill(t)
u.put([0], t)
i.units = lenB
i.units = 'mm'
i *= 0.5
i /= 2
i += p
i -= 0.5*lenA
i **= 0.5
i %= p
i //= 2.5
i *= t
i.fill(p)
i[0] = s
i *= timA
i /= timA
i //= timA
o += t
o *= t[:2]
pq.sin(q)
pq.arcsin(q)
pq.cosh(q)
pq.exp(q)
pq.arctan2(q, t)
pq.arctan2(q, n)
pq.hypot(q, t)
pq.hypot(q, n)
pq.unwrap(q)
pq.unwrap(q, t)
pq.unwrap(d, q)
pq.trapz(q, x=3)
pq.trapz(q, dx=t)
pq.gradient(q, t)
pq.cross(q, t)
pq.cross(q, n)
pq.ediff1d(q, t)
pq.ediff1d(q, to_begin=t)
pq.ediff1d(q, to_begin=n)
pq.diff(q, n=-1)
pq.cumprod(q)
pq.prod(q, axis=3)
pq.std(q, out=x)
pq.around(q, out=x)
pq.tan(3*pq.m)
pq.arccos(d*pq.m)
np.sin(q)
np.exp(q)
np.log(q)
np.add(q, t)
np.add(q, n)
np.hypot(q, t)
np.maximum(q, t)
np.power(q, x)
np.arctan2(q, t)
q + t
q - t
q % t
t - q
q + n
n - q
q + x[:2]
q * p[:2]
q ** q
q ** x
q ** 'a'
q * 'a'
q / None
q + 'a'
q < t
q >= t
q <= n
divmod(q, t)
q // 'a'
q % 'a'
int(q)
float(q)
int(s)
float(s)
complex(s)
bool(q)
hash(q)
len(s)
'%d' % s
pq.Quantity(1.0, 'm').item(3)
s[0]
s[0] = 3
q['a']
q[5]
q[5] = q[0]
q.reshape((7,))
q.reshape((2, 2))
q @ t
q | t
q & q
q << t
~q
q and t
iter(s)
list(s)
q.dimensionality = t.dimensionality
q._dimensionality + t._dimensionality
q.magnitude = x
q.sort(axis=4)
q.argsort(axis=4)
q.repeat(-1)
q.swapaxes(0, 4)
q.transpose(3)
np.sort(q, axis=4)
np.repeat(q, x)
q.shape = (7,)
q.real = t
q.T[0] = t[0]
q.imag = t
'''.strip().split('\n')

#: a new object from operands
PURE = '''
q + q
q + p
p + q
q - p
q * t
q * x
x * q
q * n
n * q
q / t
q / p
n / q
q // p
q // n
q % p
q ** 2
q ** n
q ** 0
q ** -1
-q
abs(q)
divmod(q, p)
q < p
q <= p
q > p
q >= p
q == p
q != p
q == t
q != t
q < q
d + x
x + d
d - n
n - d
d ** d
n ** d
d + w*0/w
q.rescale(lenB)
q.rescale('m')
q.rescale(lenA)
q.rescale(q.units)
q.rescale(q.dimensionality)
q.rescale('cm', dtype='float64')
q.rescale(pq.m)
q.simplified
d.simplified
w.simplified
q.rescale_preferred()
q.copy()
q.view()
q[:]
q[1:]
q[0]
q[[0, 1]]
q[x > 0]
q.reshape((3, 1))
q.ravel()
q.flatten()
q.T
q.squeeze()
q.transpose()
q.swapaxes(0, 0)
q.real
q.imag
q.conj()
q.conjugate()
q.magnitude
q.item(0)
q.units
q.dimensionality
q.dimensionality.simplified
q.dimensionality.string
q.tolist()
list(q)
iter(q)
str(q)
repr(q)
format(s, '.3f')
q.dimensionality.html
q.dimensionality.latex
q.dimensionality.unicode
q.sum()
q.sum(0)
q.mean()
q.min()
q.max()
q.ptp()
q.std()
q.var()
q.std(ddof=1)
q.var(ddof=1)
q.argmin()
q.argmax()
q.argsort()
q.cumsum()
q.nansum()
q.nanmean()
q.nanmin()
q.nanmax()
q.nanstd()
q.nanargmin()
q.nanargmax()
d.prod()
d.cumprod()
q.prod()
q.clip(s, 2*s)
q.clip(p, 2*p)
q.clip(s)
q.clip(None, s)
q.round()
q.round(1)
q.take([0, 1])
q.take(0)
q.repeat(2)
q.compress([True, False, True])
q.nonzero()
q.searchsorted(p)
q.searchsorted(q[0])
q.astype('float32')
q.astype('float64')
q.any()
q.all()
np.add(q, p)
np.subtract(q, p)
np.multiply(q, t)
np.divide(q, t)
np.floor_divide(q, p)
np.remainder(q, q)
np.power(q, 2)
np.sqrt(q)
np.square(q)
np.cbrt(q)
np.reciprocal(q)
np.negative(q)
np.absolute(q)
np.fabs(q)
np.floor(q)
np.ceil(q)
np.rint(q)
np.trunc(q)
np.sign(q)
np.maximum(q, q)
np.minimum(q, p)
np.hypot(q, q)
np.arctan2(q, q)
np.isnan(q)
np.isfinite(q)
np.copysign(q, q)
np.sum(q)
np.mean(q)
np.std(q)
np.var(q)
np.min(q)
np.max(q)
np.cumsum(q)
np.diff(q)
np.sort(q)
np.round(q)
np.clip(q, s, 2*s)
np.ravel(q)
np.reshape(q, (3, 1))
np.squeeze(q)
np.transpose(q)
np.expand_dims(q, 0)
np.repeat(q, 2)
np.take(q, [0])
np.zeros_like(q)
np.ones_like(q)
np.empty_like(q)
np.copy(q)
np.array(q)
np.asarray(q)
np.asanyarray(q)
np.array(q, subok=True)
np.array(q, copy=True)
np.real(q)
np.abs(q)
np.exp(d)
np.log(d)
np.sin(d)
np.array_equal(q, q)
np.flip(q)
pq.sin(d)
pq.cos(d)
pq.tan(d)
pq.arcsin(d)
pq.arccos(d)
pq.arctan(d)
pq.sinh(d)
pq.cosh(d)
pq.tanh(d)
pq.arcsinh(d)
pq.arccosh(d)
pq.arctanh(d)
pq.exp(d)
pq.hypot(q, p)
pq.hypot(q, q)
pq.arctan2(q, q)
pq.arctan2(q, p)
pq.unwrap(d)
pq.unwrap(d*pq.degree)
pq.unwrap(d*pq.degree, d[0]*pq.radian)
pq.trapz(q)
pq.trapz(q, t)
pq.trapz(q, dx=r)
pq.gradient(q, r)
pq.gradient(q)
pq.cross(q, t)
pq.diff(q)
pq.ediff1d(q)
pq.ediff1d(q, p)
pq.ediff1d(q, p, p)
pq.prod(d)
pq.cumprod(d)
pq.sum(q)
pq.cumsum(q)
pq.nansum(q)
pq.nanprod(d)
pq.around(q, 1)
pq.round_(q, 1)
pq.floor(q)
pq.ceil(q)
pq.fix(q)
pq.log(d)
pq.power(q, 2)
pq.sqrt(q)
pq.square(q)
pq.reciprocal(q)
pq.Quantity(q)
pq.Quantity(q, lenB)
pq.Quantity(q, 'm')
pq.Quantity(q, lenA)
pq.Quantity(q, q.units)
pq.Quantity(q, q.dimensionality)
pq.Quantity(d, 'dimensionless')
pq.Quantity(u)
pq.Quantity(u, lenB)
pq.Quantity(s)
pq.Quantity(s, 'm')
pq.Quantity(x, 'm')
pq.Quantity(x, lenA)
pq.Quantity(x, lenA*timA)
pq.Quantity(n, lenA)
pq.Quantity([s, s, s], lenA)
x * lenA
x / lenA
n * lenA
lenA * n
lenA * x
lenA / timA
lenA * q
q * lenA
q / lenA
q * timA
q / timA
q // lenA
lenA / q
lenA ** 2
lenA + lenB
lenA + q
q + lenA
q - lenA
lenA - q
lenA % lenB
q % lenA
lenA < lenB
lenA == lenB
lenA == q
q == lenA
lenA < q
abs(lenA)
-lenA
lenA.simplified
lenA.units
lenA.dimensionality
lenA.rescale(lenB)
lenA.rescale('m')
lenA.definition
lenA.reference_quantity
lenA.copy()
lenA.magnitude
lenA.view(pq.Quantity)
pq.Quantity(lenA)
pq.Quantity(lenA, lenB)
np.array(lenA)
np.multiply(lenA, lenB)
np.sqrt(lenA)
hash(lenA)
pq.c.simplified
pq.c.rescale('km/s')
pq.c * q
pq.c + velA
pq.c.definition
pq.UncertainQuantity(x, lenA, y)
pq.UncertainQuantity(x, lenA, p)
pq.UncertainQuantity(x, lenA, q)
pq.UncertainQuantity(q)
pq.UncertainQuantity(q, lenA, q)
pq.UncertainQuantity(q, lenB, p)
pq.UncertainQuantity(q, lenA, p)
pq.UncertainQuantity(u)
pq.UncertainQuantity(u, lenB)
pq.UncertainQuantity(u, lenA, p)
pq.UncertainQuantity(u, lenA, u.uncertainty)
u + u
u + q
q + u
u - a
u - p
u * z
u * q
q * u
u * x
x * u
u * n
n * u
u / z
u / a
u / n
n / u
u / q
q / u
u ** 2
u ** n
u ** 0
-u
abs(u)
u < a
u == a
u == q
u.rescale(lenB)
u.rescale('m')
u.rescale(lenA)
u.rescale(u.units)
u.simplified
u.copy()
u.view(pq.Quantity)
u.magnitude
u.uncertainty
u.relative_uncertainty
u.units
u.dimensionality
u[1:]
u[0]
u[[0, 1]]
u[:]
u.reshape((3, 1))
u.ravel()
u.flatten()
u.T
u.sum()
u.mean()
u.min()
u.max()
u.argmin()
u.argsort()
u.nansum()
u.nanmean()
u.nanmin()
u.nanmax()
u.std()
u.var()
u.cumsum()
u.round()
u.take([0, 1])
u.repeat(2)
u.compress([True, False, True])
u.astype('float32')
u.tolist()
list(u)
str(u)
repr(u)
u * lenA
u / timA
lenA * u
u + lenA
u - lenA
u.set_uncertainty
q.dimensionality * t.dimensionality
q.dimensionality / t.dimensionality
q.dimensionality ** 2
q.dimensionality + q.dimensionality
q.dimensionality - q.dimensionality
q.dimensionality == t.dimensionality
q.dimensionality.copy()
hash(q.dimensionality)
copy.copy(q)
copy.deepcopy(q)
copy.copy(u)
copy.deepcopy(u)
copy.deepcopy(lenA)
copy.copy(lenA)
pickle.loads(pickle.dumps(q))
pickle.loads(pickle.dumps(u))
pickle.loads(pickle.dumps(lenA))
i + i
i + p
i * 2
i / 2
i * 0.5
i ** 2
i % p
i.rescale(lenB)
i.rescale('m')
i.simplified
i.astype('float64')
i.copy()
i.sum()
i.mean()
v + v
v + p
v * t
v ** 2
v.copy()
v.rescale(lenB)
v.simplified
v.units
v[0]
v.magnitude
'''.strip().split('\n')

DEFS = {
    'q': "pq.Quantity(xq, lenA)", 'p': "pq.Quantity(xp, lenB)", 't': "pq.Quantity(xt, timA)", 'd': "pq.Quantity(xd, 'dimensionless')", 'w': "pq.Quantity(xw, lenA)", 'v': "w[1:]",
    's': "pq.Quantity(ns, lenA)", 'r': "pq.Quantity(nr, timA)", 'o': "pq.Quantity(xo, lenA)", 'i': "pq.Quantity(xi, lenA)",
    'u': "pq.UncertainQuantity(xu, lenA, xe)", 'z': "pq.UncertainQuantity(xz, timA, xf)", 'a': "pq.UncertainQuantity(xa, lenB, xg)",
}
WORD = re.compile('[A-Za-z_]+')


def operands(W, src=None):
    """the operands; only those a fragment names, if one is given"""
    A = W.arr
    pos = dict(positive=True)
    names = set(DEFS) | set('xyn') if src is None else set(WORD.findall(src))
    if 'v' in names:
        names.add('w')
    inputs = dict(xq=lambda: A('q', (3,)), xp=lambda: A('p', (3,)), xt=lambda: A('t', (3,)), xd=lambda: A('d', (3,)), xw=lambda: A('w', (3,)), xo=lambda: A('o', (3,)), xi=lambda: A('i', (3,), 'int64'),
                  ns=lambda: W.num('s'), nr=lambda: W.num('r'), xu=lambda: A('u', (3,)), xe=lambda: A('e', (3,), **pos), xz=lambda: A('z', (3,)), xf=lambda: A('f', (3,), **pos), xa=lambda: A('a', (3,)),
                  xg=lambda: A('g', (3,), **pos))
    code = 'import copy, pickle\n' + '\n'.join('%s = %s' % kv for kv in DEFS.items() if kv[0] in names)
    need = set(WORD.findall(code))
    ns = W.do(code, **{k: f() for k, f in inputs.items() if k in need})
    out = {k: ns[k] for k in DEFS if k in names}
    more = dict(x=lambda: A('x', (3,)), y=lambda: A('y', (3,), **pos), n=lambda: W.num('n'))
    out.update({k: f() for k, f in more.items() if k in names})
    out.update(copy=ns['copy'], pickle=ns['pickle'])
    return out
