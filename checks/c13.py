import itertools
import random
import re

from .common import *
from .units_ref import UNITS as REF

TITLE = 'formatted units are faithful in text, unicode, LaTeX and HTML'
LEVEL = 'other'
FLOOR = 350
EXPLAIN = ('abstract interpretation of the formatting code over every unit of the package, over products of units with integer, negative, '
           'fractional, tiny and huge exponents, and over compound units, in every notation and both settings of the unicode option; the '
           'text is read back with an independent reader of each notation and has to denote the unit map it was made from, whatever the '
           'order in which it was put together')

SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}


class Unreadable(Exception):
    pass


def braced(s, i):
    """the text in braces at s[i], and the position after it"""
    if i >= len(s) or s[i] != '{':
        raise Unreadable('no { at %r' % s[i:])
    d = 0
    for j in range(i, len(s)):
        if s[j] == '\\' and s[j + 1:j + 2] in '{}':
            continue
        d += (s[j] == '{') - (s[j] == '}')
        if d == 0:
            return s[i + 1:j], j + 1
    raise Unreadable('unbalanced braces in %r' % s)


def from_unicode(s):
    if re.search('[%s][\\w.]' % ''.join(SUP), re.sub('[%s]+' % ''.join(SUP), lambda m: m.group()[0], s)):
        raise Unreadable('a part of a number raised in %r' % s)
    s = re.sub('[%s]+' % ''.join(SUP), lambda m: '**' + ''.join(SUP[c] for c in m.group()), s)
    return s.replace('^', '**').replace('·', '*')


def from_html(s):
    s = re.sub(r'<sup>(.*?)</sup>', r'**\1~', s)
    if '<' in s:
        raise Unreadable('markup in %r' % s)
    return from_unicode(s.replace('&sdot;', '*'))


def from_latex(s, font='mathrm', mult=r'\cdot'):
    m = re.fullmatch(r'\$\\(\w+)(\{.*\})\$', s, re.S)
    if not m or m.group(1) != font:
        raise Unreadable('no $\\%s{...}$' % font)
    body, end = braced(m.group(2), 0)
    if end != len(m.group(2)):
        raise Unreadable('text after the closing brace')

    def conv(t):
        t = t.strip()
        t = t.replace('{%s}' % mult, '*').replace(r'\cdot ', '*') if mult != '' else t.replace('{}', '*')
        t = t.replace(r'\left(', '(').replace(r'\right)', ')').replace(r'\%', '\0')
        if '%' in t:
            raise Unreadable('a bare % hides the rest of the line')
        while True:
            i = t.find(r'\frac')
            if i < 0:
                break
            a, j = braced(t, i + 5)
            b, j = braced(t, j)
            a, b = conv(a), conv(b)
            t = t[:i] + '((%s)/(%s))' % (a, b) + t[j:]
        while True:
            i = t.find('^')
            if i < 0:
                break
            if t[i + 1:i + 2] == '{':
                e, j = braced(t, i + 1)
            else:
                e, j = t[i + 1:i + 2], i + 2
            t = t[:i] + '**' + e + '~' + t[j:]
        if re.search(r'[\\{}^$]', t):
            raise Unreadable('left over markup in %r' % t)
        return t
    return from_unicode(conv(body).replace('\0', '%'))


NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?')


def read(text, symbols):
    """{symbol: exponent} of products, quotients and powers of known symbols"""
    pos = 0
    names = sorted(symbols, key=len, reverse=True)
    pats = [(n, re.compile(''.join(re.escape(x) + '~?' * (i % 2) for i, x in enumerate(re.split(r'(\*\*(?:\([^()]*\)|[+-]?[\d.]+(?:e[+-]?\d+)?))', n))))) for n in names]
    seen = []

    def peek(s):
        return text.startswith(s, pos)

    def expr():
        nonlocal pos
        a = term()
        while pos < len(text) and (peek('*') or peek('/')) and not peek('**'):
            op = text[pos]
            pos += 1
            a = comb(a, term(), 1 if op == '*' else -1)
        return a

    def term():
        nonlocal pos
        a = atom()
        if peek('**'):
            pos += 2
            m = NUM.match(text, pos)
            if not m:
                raise Unreadable('no exponent at %r' % text[pos:])
            pos = m.end()
            if '~' in text:             # (marks the end of a raised part)
                if not peek('~'):
                    raise Unreadable('raised text that is no number at %r' % text[pos:])
                pos += 1
            e = float(m.group())
            return powd(a, C(T.Fraction(e)))
        return a

    def atom():
        nonlocal pos
        for n, p in pats:
            m = p.match(text, pos)
            if m:
                pos = m.end()
                if n in seen:
                    raise Unreadable('%s occurs twice' % n)
                seen.append(n)
                return {n: ONE}
        if peek('('):
            pos += 1
            a = expr()
            if not peek(')'):
                raise Unreadable('no ) at %r' % text[pos:])
            pos += 1
            return a
        for one in ('dimensionless', '1'):
            if peek(one):
                pos += len(one)
                return {}
        raise Unreadable('unknown text %r' % text[pos:])
    r = expr()
    if pos != len(text):
        raise Unreadable('unexpected %r' % text[pos:])
    return r


NOTATIONS = {'string': from_unicode, 'unicode': from_unicode, 'html': from_html, 'latex': from_latex}
EXPS = ['2', '3', '-1', '-2', '-3', '0.5', '-0.5', '1.5', '-1.5', '10', '-10', '12', '100', '101', '20', '1./3', '-2./3', '2.5', '0.25', '1e-05', '-1e-05', '1e+20', '1e-07', '2.0', '-1.0', '10.0', '0.1',
        '1.05', '123456789', '1234567.5', '0.30000000000000004', '100.0', '1.5e-07', '1.5e-10', '-2.5e+20', '11', '-120.0', '10.5', '3.10', '1.0000001', '0.9999999', '12.5', '2e+20', '1.00000000001', '-1.0000001', '-12.25', '10.01']


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    rnd = random.Random(13)

    def val(e):
        a, _, b = e.partition('/')
        return T.Fraction(float(a) / float(b)) if b else T.Fraction(float(a))

    def setmode(on):
        W.run('from quantities import markup\nmarkup.config.use_unicode = %s' % on)

    def check(what, q, dims, symbols, modes=(False, True), exact=True):
        """dims: {key: exponent}; symbols: {key: (symbol, u_symbol)} of the units of q"""
        first = None
        for on in modes:
            setmode(on)
            table = {}
            for k, (s, u) in symbols.items():
                table.setdefault(from_unicode(u if on else s), k)
            for n, conv in NOTATIONS.items():
                w = '(%s).dimensionality.%s%s' % (what, n, ' with the unicode option' if on else '')
                t = W.ev('q.dimensionality.' + n, w, q=q)
                want(w, isinstance(t, str), 'is %s' % W.show(t))
                try:
                    r = read(conv(t), table)
                except Unreadable as e:
                    fail(w, 'is %r: %s' % (t, e))
                got = {table[k]: v for k, v in r.items()}
                exp = {k: v for k, v in dims.items()}
                want(w, sorted(got) == sorted(exp), 'is %r, which lists the units %s instead of %s' % (t, sorted(got), sorted(exp)))
                for k in exp:
                    want(w, float(T.cval(got[k])) == float(T.cval(exp[k])),
                         'is %r, which shows %s with the exponent %s instead of %s' % (t, k, T.show(got[k]), T.show(exp[k])))
                if n == 'string' and not on:
                    first = t
                    want(w, not re.search('[%s·^]' % ''.join(SUP), re.sub('|'.join(map(re.escape, sorted((u for _, u in symbols.values()), key=len, reverse=True))) or '$^', '', t)), 'is %r, not plain text' % t)
                if n == 'unicode':
                    s = W.ev('str(q.dimensionality)', q=q)
                    want('str((%s).dimensionality)%s' % (what, ' with the unicode option' if on else ''), s == (t if on else first), 'is %r' % s)
                    want(w, '*' not in re.sub('|'.join(map(re.escape, table)) or '$^', '', t), 'is %r, with a * in it' % t)
                if n == 'latex' and '/' in conv(t) and '(' not in ''.join(table):
                    want(w, r'\frac' in t, 'is %r, without a fraction' % t)
        setmode(False)
        return first

    # ---- every unit, alone and with exponents
    unique = {}
    for u in REF:
        unique.setdefault(u[0], u)
    pool = {}
    for u in REF:
        sym = u[2] or u[0]
        pool[u[0]] = (u, (sym, u[3] or sym))

    def obj(name):
        u = unique[name]
        return W.I.getattr(W.I.import_module('quantities.units.' + u[9]), u[5][0])

    def one(name):
        x = obj(name)
        symbols = {name: pool[name][1]}
        if name == 'dimensionless':
            symbols = {}
        d = {name: ONE} if symbols else {}
        check('1*' + name, W.ev('1*x', x=x), d, symbols)
        for e in ('2', '-1', '-0.5', '12'):
            check('%s**%s' % (name, e), W.ev('(1*x)**%s' % e, x=x), powd(d, C(val(e))), symbols)
        # the unit itself says its symbol and name
        sym, usym = pool[name][1]
        for on in (False, True):
            setmode(on)
            s = W.ev('str(x)', x=x)
            n = from_unicode(name) if '(' in name else name
            want('str(%s)' % name, isinstance(s, str) and from_unicode(s).startswith('1 ') and n in from_unicode(s) and from_unicode(usym if on else sym) in from_unicode(s), 'is %r' % s)
        setmode(False)
        # its repr says its definition
        s = W.ev('repr(x)', x=x)
        if '(' in name or not s.startswith('Unit'):
            return
        m = re.fullmatch(r"(\w+)\('([^']*)'(?:, ([-+.\de]+) \* ([^',]+))?(?:, '([^']*)')?\)", s)
        what = 'repr(%s)' % name
        want(what, m, 'is %r' % s)
        want(what, m[1] == x.cls.name and m[2] == name, 'is %r' % s)
        want(what, m[5] == unique[name][2] or not m[5] and unique[name][2] in ('', None, name), 'is %r, with a symbol other than %r' % (s, unique[name][2]))
        d = W.ev('x.definition', x=x)
        want(what, bool(m[4]) == (d is not x), 'is %r' % s)
        if m[4]:
            r = W.ev('pq.Quantity(float(v), t)', what + ' is %r, whose definition' % s, v=m[3], t=m[4])
            a, b = W.ev('r.simplified', r=r), W.ev('x.simplified', x=x)
            want_dims(what, W.dims(a), W.dims(b))
            want_same(what + ', which is %s: its definition' % s, T.mul(W.mag(a), T.inv(W.mag(b))), ONE, 1e-7)
    for n in sorted(unique):
        S.add('unit %s' % n, one, n)

    # ---- products, put together in every order
    simple = [n for n in unique if n not in ('dimensionless', 'statampere') and '(' not in n]

    def product(parts):
        symbols = {n: pool[n][1] for n, _ in parts}
        if len({from_unicode(s[i]) for s in symbols.values() for i in (0,)}) < len(symbols) or len({s[1] for s in symbols.values()}) < len(symbols):
            done('two units with the same symbol')
            return
        dims = {}
        for n, e in parts:
            dims = comb(dims, {n: C(val(e))})
        texts = set()
        orders = list(itertools.permutations(range(len(parts))))
        rnd.shuffle(orders)
        kw = {'u%d' % i: obj(n) for i, (n, _) in enumerate(parts)}
        what = '*'.join('%s**(%s)' % p for p in parts)
        for o in orders[:24 if thorough else 4]:
            q = W.ev('*'.join('u%d**(%s)' % (i, parts[i][1]) for i in o) + '*1.0', **kw)
            texts.add(W.ev('q.dimensionality.string', q=q))
        # and by dividing
        q = W.ev('1.0/(%s)' % '*'.join('u%d**-(%s)' % (i, parts[i][1]) for i in orders[0]), **kw)
        texts.add(W.ev('q.dimensionality.string', q=q))
        q = W.ev('pq.Quantity(2.0, x)', x=q.attrs['_dimensionality'] if '_dimensionality' in q.attrs else q)
        texts.add(check(what, q, dims, symbols))
        want('the text of ' + what, len(texts) == 1, 'depends on the order of construction: ' + ', '.join(sorted(map(str, texts))))
        # the text gives the units back
        t = texts.pop()
        r = W.ev('pq.Quantity(a, t)', 'pq.Quantity(a, %r)' % t, a=W.vec('a', W.dim('n')), t=t)
        got = W.dims(r)
        want('pq.Quantity(a, %r)' % t, sorted(got) == sorted(dims) and all(abs(T.cval(got[k]) - T.cval(dims[k])) <= abs(T.cval(dims[k])) * T.Fraction(1, 10**14) for k in dims),
             'has the units %s instead of those of %s' % (showdims(got), what))
        want_same('pq.Quantity(a, %r)' % t, W.mag(r), T.sym('a'))
    from qsa.spec import showdims
    seen = set()
    for e in EXPS:
        for n in ('meter', 'second'):
            seen.add(((n, e),))
    for a, b in (('2', '-3'), ('0.5', '-1.5'), ('-1', '-1'), ('-2', '10'), ('1', '-1'), ('-1e-05', '12'), ('1', '1'), ('1./3', '-2./3'), ('2.0', '-2.0'), ('-0.5', '-2'), ('1.5', '1.5'), ('100', '-10'),
                 ('1e+20', '-1e-07'), ('11', '-101'), ('-3', '1')):
        seen.add((('kilogram', a), ('ampere', b)))
        seen.add((('meter', a), ('micrometer', b)))
        seen.add((('ohm', a), ('newton', b)))
        seen.add((('percent', a), ('inch', b)))
    while len(seen) < (700 if thorough else 240):
        k = rnd.choice([2, 2, 3, 3, 4, 5])
        seen.add(tuple(zip(rnd.sample(simple, k), rnd.choices(['1', '1', '1', '-1', '-1'] + EXPS, k=k))))
    for parts in sorted(seen):
        S.add('product ' + ' '.join('%s:%s' % p for p in parts), product, parts)

    # ---- compound units stay in parentheses
    def compound(expr, dims, comps):
        symbols = {c: ('(%s)' % c, '(%s)' % c) for c in comps}
        for n in dims:
            if n in pool:
                symbols[n] = pool[n][1]
        q = W.ev('1.0*(%s)' % expr)
        check(expr, q, {k: C(T.Fraction(v)) for k, v in dims.items()}, symbols)
        for on in (False, True):
            setmode(on)
            x = W.ev('pq.CompoundUnit(c)', c=comps[0])
            n = W.ev('x.name', x=x)
            want('pq.CompoundUnit(%r).name' % comps[0], from_unicode(n) == '(%s)' % comps[0], 'is %r' % n)
        setmode(False)
    CU = 'pq.CompoundUnit(%r)'
    A, B_, C_ = 'm**2/m**3', 'm/s', 'pc/cc'
    for expr, dims, comps in ((CU % A, {A: 1}, [A]), ((CU % A) + '**2', {A: 2}, [A]), ((CU % A) + '/pq.s', {A: 1, 'second': -1}, [A]), ('pq.kg/' + CU % B_, {'kilogram': 1, B_: -1}, [B_]),
                              ((CU % B_) + '*' + (CU % A), {A: 1, B_: 1}, [B_, A]), ((CU % C_) + '*' + (CU % B_) + '/pq.kg', {C_: 1, B_: 1, 'kilogram': -1}, [C_, B_]),
                              ('1/' + CU % B_, {B_: -1}, [B_]), ('pq.m**2/' + (CU % A) + '**2', {'meter': 2, A: -2}, [A]), ((CU % C_) + '/' + (CU % B_), {C_: 1, B_: -1}, [C_, B_]),
                              ((CU % 'm**10/s**-12'), {'m**10/s**-12': 1}, ['m**10/s**-12']), ('pq.m*pq.s/(' + (CU % B_) + '*pq.kg**0.5)', {'meter': 1, 'second': 1, B_: -1, 'kilogram': '-1/2'}, [B_]),
                              ('pq.CompoundUnit("m**(1/2)/s")/pq.kg**0.5', {'m**(1/2)/s': 1, 'kilogram': '-1/2'}, ['m**(1/2)/s']), ('pq.CompoundUnit("m**0.5")**3', {'m**0.5': 3}, ['m**0.5']),
                              ('1/(' + (CU % C_) + '*' + (CU % B_) + ')', {C_: -1, B_: -1}, [B_, C_]), ('pq.kg/(' + (CU % B_) + '*' + (CU % A) + '**2)', {'kilogram': 1, B_: -1, A: -2}, [B_, A]),
                              ('1/(' + (CU % C_) + '*' + (CU % B_) + '*' + (CU % A) + ')', {C_: -1, B_: -1, A: -1}, [B_, C_, A]), ('1/(pq.kg*' + (CU % B_) + ')', {'kilogram': -1, B_: -1}, [B_]),
                              ((CU % A) + '/(' + (CU % B_) + '*' + (CU % C_) + ')', {A: 1, B_: -1, C_: -1}, [B_, C_, A]), ((CU % A) + '*' + (CU % C_) + '/' + (CU % B_), {A: 1, C_: 1, B_: -1}, [B_, C_, A]),
                              ('1/((' + (CU % A) + ')**2*(' + (CU % B_) + ')**0.5)', {A: -2, B_: '-1/2'}, [B_, A])):
        S.add('compound ' + expr, compound, expr, dims, comps)

    # ---- the options of the LaTeX and HTML functions
    def options(text, dims):
        d = W.ev('pq.Quantity(1.0, t).dimensionality', t=text)
        table = {pool[n][1][0]: n for n in dims}
        dims = {k: C(T.Fraction(v)) for k, v in dims.items()}
        W.run('from quantities import markup')
        mk = W.I.import_module('quantities.markup')
        for font in ('mathrm', 'mathsf', 'mathnormal'):
            for mult in (r'\cdot', '*', r'\times', ''):
                for paren in (False, True):
                    m2 = {r'\cdot': r'\\cdot', r'\times': r'\\times'}.get(mult, mult)
                    w = 'format_units_latex(<%s>, font=%r, mult=%r, paren=%s)' % (text, font, mult, paren)
                    t = W.ev('mk.format_units_latex(d, font=f, mult=m, paren=p)', w, mk=mk, d=d, f=font, m=m2, p=paren)
                    try:
                        r = read(from_latex(t, font, mult), table)
                    except Unreadable as e:
                        fail(w, 'is %r: %s' % (t, e))
                    want(w, {table[k]: v for k, v in r.items()} == dims, 'is %r' % t)
                    want(w, (r'\left(' in t) == paren, 'is %r' % t)
        for mult in ('&sdot;', '*', 'x', ''):
            for paren in (False, True):
                w = 'format_units_html(<%s>, font="<b>%%s</b>", mult=%r, paren=%s)' % (text, mult, paren)
                t = W.ev('mk.format_units_html(d, font="<b>%s</b>", mult=m, paren=p)', w, mk=mk, d=d, m=mult, p=paren)
                want(w, isinstance(t, str) and t.startswith('<b>') and t.endswith('</b>'), 'is %r' % t)
                t = t[3:-4]
                want(w, not paren or t.startswith('(') and t.endswith(')'), 'is %r' % t)
                plain = W.ev('d.html', d=d)
                want(w, t == (('(%s)' if paren else '%s') % plain.replace('&sdot;', mult)), 'is %r but d.html is %r' % (t, plain))
    S.add('options of kg*m**2/s**3', options, 'kg*m**2/s**3', {'kilogram': 1, 'meter': 2, 'second': -3})
    S.add('options of A*s/(m*K**0.5)', options, 'A*s/(m*K**0.5)', {'ampere': 1, 'second': 1, 'meter': -1, 'kelvin' if 'kelvin' in pool else 'Kelvin': '-1/2'})
    S.add('options of 1/(V*mol**12)', options, '1/(V*mol**12)', {'volt': -1, 'mole': -12})

    # ---- the unicode option
    def option(v, on):
        W.run('from quantities import markup\nmarkup.config.use_unicode = v', v=v)
        mk = W.I.import_module('quantities.markup')
        r = W.ev('mk.config.use_unicode', mk=mk)
        want('markup.config.use_unicode after setting it to %r' % (v,), r is on, 'is %r' % (r,))
        s = W.ev('str(pq.Quantity(2.0, "um**2").dimensionality)')
        want('str of um**2', from_unicode(s) == ('µm**2' if on else 'um**2'), 'is %r' % s)
        setmode(False)
    for v, on in ((True, True), (False, False), (1, True), (0, False)):
        S.add('use_unicode = %r' % (v,), option, v, on)

    # ---- quantities print their magnitude and units
    def flat(t):
        """text with the magnitudes as ('str'|'repr'|'fmt', term, ...) parts"""
        if isinstance(t, str):
            return [t]
        want('text', hasattr(t, 'parts'), 'is %s' % W.show(t))
        out = []
        for p in t.parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return out

    def shows(w, t, *exp):
        t = flat(t)

        def tidy(s):
            return re.sub(r' *(\+/-|±|\(|\*|,) *', r'\1', re.sub(r'\s+', ' ', s)).rstrip()
        ok = len(t) == len(exp)
        for a, b in zip(t, exp):
            if isinstance(b, str):
                ok = ok and isinstance(a, str) and tidy(a) == tidy(b)
            else:
                ok = ok and isinstance(a, tuple) and (a[0] if a[0] != 'num' else 'str') == b[0] and paths.same(a[1], b[1]) is True and a[2:] == b[2:]
        want(w, ok, 'is %s instead of %s' % (''.join(p if isinstance(p, str) else '<%s>' % T.show(p[1]) for p in t), ''.join(p if isinstance(p, str) else '<%s>' % T.show(p[1]) for p in exp)))
    UNITTEXT = {'pq.m': ('m', 'm'), 'pq.m**2/pq.um': ('m**2/um', 'm²/µm'), '1/pq.s': ('1/s', '1/s'), 'pq.dimensionless': ('dimensionless', 'dimensionless'),
                'pq.kg*pq.m**2/(pq.s**3*pq.A)': ('kg*m**2/(s**3*A)', 'kg·m²/(s³·A)'), 'pq.m**0.5': ('m**0.5', 'm^0.5'), 'pq.degC': ('degC', '°C'), 'pq.ohm/pq.m**12': ('ohm/m**12', 'Ω/m¹²'),
                'lenA/timB**2': ('lenA/timB**2', 'lenA/timB²')}

    def printing(u, on, shape):
        text = ' ' + UNITTEXT[u][on]
        a, ua = T.sym('a'), T.sym('ua', False, True)
        arr = W.num('a') if shape is None else W.arr('a', shp(W, shape))
        unc = W.num('ua', positive=True) if shape is None else W.arr('ua', shp(W, shape), positive=True)
        q = W.ev('pq.Quantity(a, %s)' % u, a=arr)
        v = W.ev('pq.UncertainQuantity(a, %s, ua)' % u, a=arr, ua=unc)
        a, ua = W.mag(q), W.mag(W.ev('v.uncertainty', v=v))
        setmode(bool(on))
        w = ' of a quantity in %s%s' % (u, ' with the unicode option' if on else '')
        shows('str' + w, W.ev('str(q)', q=q), ('str', a), text)
        shows("'%s'" + w, W.ev("'%s' % q", q=q), ('str', a), text)
        shows('repr' + w, W.ev('repr(q)', q=q), ('repr', a), '*' + W.ev('q.dimensionality.string', q=q))
        shows('f-string' + w, W.ev("f'{q}'", q=q), ('str', a), text)
        if shape in (None, ()):
            for f in ('.1f', '.3e', '10.2f'):
                shows('format(q, %r)' % f + w, W.ev('format(q, f)', q=q, f=f), ('fmt', a, f), text)
        pm, sg = ('±', '1σ') if on else ('+/-', '1 sigma')
        shows('str' + w.replace('a quantity', 'an uncertain quantity'), W.ev('str(v)', v=v), ('str', a), text + pm, ('str', ua), '%s(%s)' % (text, sg))
        shows('repr' + w.replace('a quantity', 'an uncertain quantity'), W.ev('repr(v)', v=v), 'UncertainQuantity(', ('repr', a), ',%s,' % W.ev('q.dimensionality.string', q=q), ('repr', ua), ')')
        setmode(False)
    for u in UNITTEXT:
        for on in (0, 1):
            for shape in (None, (), ('n',), ('n', 2)):
                S.add('printing %s %s %s' % (u, on, shape), printing, u, on, shape)
    return S.items, {'units': len(unique)}
