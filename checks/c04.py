from .common import *

TITLE = 'reductions and array methods keep values, axes and units'
LEVEL = 'other'
FLOOR = 500
EXPLAIN = ('abstract interpretation of the array methods and the NumPy functions that call them over symbolic values and '
           'shapes: the magnitude is what NumPy gives for the bare numbers, the units are those the operation implies, '
           'an output array receives both')

# method call on the quantity a -> power of the units (None: a plain result)
RED = ['sum', 'nansum', 'mean', 'nanmean', 'std', 'nanstd', 'max', 'min', 'nanmax', 'nanmin', 'ptp', 'cumsum']
NOAX = ['ravel()', 'flatten()', 'copy()', 'transpose()', 'T', 'squeeze()', 'round()', 'round(2)', 'reshape(-1)', 'real',
        'view()', 'conj()', 'conjugate()', 'swapaxes(0, 1)', 'diagonal()', 'trace()', 'astype(float)', "astype('float32')",
        'repeat(2)', 'take([0, 1])', 'reshape((-1, 1))', 'ravel()[0]', 'take([1], axis=0)', 'trace(1)', 'diagonal(1)',
        'transpose(1, 0)', 'mean(0)[0]']
ARG = ['argmax', 'argmin', 'nanargmax', 'nanargmin', 'argsort']
FUNCS = ['np.sum(a%s)', 'np.mean(a%s)', 'np.std(a%s)', 'np.max(a%s)', 'np.min(a%s)', 'np.amax(a%s)', 'np.amin(a%s)',
         'np.cumsum(a%s)']
FUNCS1 = ['np.ravel(a)', 'np.transpose(a)', 'np.squeeze(a)', 'np.around(a, 1)', 'np.trace(a)', 'np.diagonal(a)',
          'np.reshape(a, -1)', 'np.swapaxes(a, 0, 1)', 'np.repeat(a, 2)', 'np.take(a, [0, 1])', 'np.copy(a, subok=True)',
          'np.sort(a)']


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    SH = {'vector': ('n',), 'matrix': ('n', 'k'), 'scalar': (), '1x1': (1, 1), 'row': (1, 'n'), '3': (3,), '2x3': (2, 3), '1': (1,), '2x1': (2, 1), '0': (0,), '0x2': (0, 2), '2x3x4': (2, 3, 4), '2x1x2': (2, 1, 2), 'cube': ('n', 'k', 'm')}
    UNITS_ = ['lenA', 'lenA/timA**2', 'frcA', 'ratA', 'pq.dimensionless'] + (['lenA**0.5', 'pq.m', 'velA**2'] if thorough else [])

    def plain(src, sh, dt='float64', positive=False, **kw):
        """what NumPy gives for the bare numbers"""
        return W.tryrun('_r = ' + src, a=W.arr('a', shp(W, sh), dt, positive), **kw)['_r']

    def agree(src, u, sh, k, dt='float64', ref=None, positive=False):
        """src on a quantity is src on its magnitude, in units**k"""
        try:
            p = plain(ref or src, sh, dt, positive)
        except Raised as e:
            if (ref or src) == src:
                return      # (NumPy refuses that shape itself)
            raise Undecided('reference: %s' % e.name)
        a = operand(W, 'a', u, shp(W, sh), dt, positive)
        ka = W.snap(a)
        what = '%s of %s' % (src, u)
        r = W.ev(src, what, a=a)
        if k is None:
            compare_plain(what, r, p)
        else:
            W.want_q(what, r)
            W.want_units(what, r, powd(dims_of(u), k))
            W.want_mag(what, r, W.mag(p))
            want_shape(what, W.shape(r), W.shape(p))
            if isinstance(p, AArr):
                want(what, r.dtype is p.dtype, 'has the type %s, not %s' % (r.dtype.name, p.dtype.name))
        W.unchanged(what, ka, a)

    def compare_plain(what, r, p):
        if isinstance(p, tuple):
            want(what, isinstance(r, tuple) and len(r) == len(p), 'is %s' % W.show(r))
            for x, y in zip(r, p):
                compare_plain(what, x, y)
            return
        W.want_plain(what, r, W.mag(p))
        want_shape(what, W.shape(r), W.shape(p))

    def forms(name, sh):
        yield name + '()'
        nd = len(SH[sh])
        if nd >= 1:
            yield name + '(0)'
            yield name + '(axis=-1)'
        if nd == 2:
            yield name + '(axis=0)'
            yield name + '(1)'
        if nd >= 2:
            yield name + '(axis=-2)'

    def into(name, arg, u, ou, sh, k, osh, swap=False):
        """with out=: the output quantity receives magnitude and units"""
        src = 'a.%s(%s)' % (name, arg)
        p = plain(src, SH[sh])
        a = operand(W, 'a', u, shp(W, SH[sh]))
        o = operand(W, 'o', ou, W.shape(p))
        src = 'a.%s(%s%sout=o)' % (name, arg, ', ' if arg else '')
        ka = W.snap(a)
        r = W.ev(src, a=a, o=o)
        want(src, r is o, 'did not return the output array')
        W.want_units(src, o, powd(dims_of(u), k))
        W.want_mag(src, o, W.mag(p))
        W.unchanged(src, ka, a)

    def into_plain(name, arg, sh):
        """a plain array cannot carry the units: refused"""
        a = operand(W, 'a', 'lenA', shp(W, SH[sh]))
        p = plain('a.%s(%s)' % (name, arg), SH[sh])
        o = W.arr('o', W.shape(p))
        refused_or(W, '_r = a.%s(%s%sout=o)' % (name, arg, ', ' if arg else ''), None, names=('TypeError', 'AttributeError', 'ValueError'), a=a, o=o)

    for name in RED:
        for sh in ('vector', 'matrix', 'scalar', '2x3') if thorough else ('vector', 'matrix', 'scalar'):
            for f in forms(name, sh):
                for u in UNITS_:
                    kind = 'nan' + name[3:] if name.startswith('nan') else name
                    src = 'a.' + f
                    ref = None
                    if name in ('nansum', 'nanmean', 'nanstd', 'nanmax', 'nanmin', 'ptp'):
                        inner = f[len(name) + 1:-1]
                        ref = 'np.%s(a%s)' % (name, ', ' + inner if inner else '')
                    if u == 'lenA' or thorough or f == name + '()' or '(axis=0)' in f:
                        S.add('%s of a %s of %s' % (src, sh, u), agree, src, u, SH[sh], ONE, 'float64', ref)
        S.add('a.%s() of integers' % name, agree, 'a.%s()' % name, 'lenA', SH['vector'], ONE, 'int64',
              'np.%s(a)' % name if name.startswith('nan') or name == 'ptp' else None)
    # numbers of other types
    for dt in ('float32', 'complex128', 'bool', 'int32', 'int64', 'uint8', 'float16', 'complex64'):
        for name in RED + ['var', 'prod']:
            for sh, arg in (('vector', ''), ('matrix', 'axis=0'), ('2x3', '1')):
                def f(name, sh, arg, dt):
                    src = 'a.%s(%s)' % (name, arg)
                    ref = 'np.%s(a%s)' % (name, ', ' + arg if arg else '') if name.startswith('nan') or name == 'ptp' else src
                    if name == 'ptp' and dt == 'bool':
                        return      # (NumPy cannot subtract booleans)
                    k = C(2) if name == 'var' else ONE
                    if name == 'prod':
                        k = N.dterm(shp(W, SH[sh])[0] if sh != '2x3' else 3)
                    agree(src, 'lenA', SH[sh], k, dt, ref)
                S.add('a.%s(%s) of a %s of %s' % (name, arg, sh, dt), f, name, sh, arg, dt)
        for src in ('a.cumsum()', 'a.cumsum(0)', 'a.round(1)', 'a.trace()', 'a.flatten()', 'a.transpose()', 'a.squeeze()', 'a.repeat(2)', 'a.copy()',
                    'a.take([1])', 'a.reshape(-1)', 'a.diagonal()', 'np.sort(a)', 'np.sum(a, axis=0)', 'np.mean(a)'):
            S.add('%s of %s' % (src, dt), agree, src, 'lenA', SH['matrix'], ONE, dt)
        for name in ARG:
            def f(name, dt):
                agree('a.%s()' % name, 'lenA', SH['vector'], None, dt, 'np.%s(a)' % name if name.startswith('nan') else None)
            S.add('a.%s() of %s' % (name, dt), f, name, dt)
    # computed in another type
    for dt in ('float64', 'int64', 'float32', 'bool', 'complex128'):
        for to in ("'d'", 'float', "'f'", "'complex128'", "'int64'", 'np.float32'):
            for name in ('sum', 'mean', 'std', 'var', 'prod', 'cumsum', 'trace', 'nansum', 'nanmean', 'nanstd'):
                def f(name, dt, to):
                    sh = 'matrix' if name == 'trace' else 'vector'
                    if dt == 'complex128' and 'complex' not in to or "'int64'" == to and name in ('std', 'var', 'nanstd', 'mean', 'nanmean'):
                        return      # (loses digits, or NumPy refuses)
                    src = 'a.%s(dtype=%s)' % (name, to)
                    k = C(2) if name == 'var' else W.dim('n') if name == 'prod' else ONE
                    agree(src, 'lenA', SH[sh], N.dterm(k) if name == 'prod' else k, dt, 'np.%s(a, dtype=%s)' % (name, to) if name.startswith('nan') else None)
                S.add('a.%s(dtype=%s) of %s' % (name, to, dt), f, name, dt, to)
    for src in ("a.sum(0, 'f')", "a.mean(1, 'f')", "a.cumsum(1, 'f')", "a.std(0, 'f')", "a.trace(1, 0, 1, 'f')", "a.trace(-1)", "a.trace(offset=2)"):
        S.add(src + ' of a matrix', agree, src, 'lenA', SH['matrix'], ONE)
    S.add("a.prod(0, 'f') of a matrix", lambda: agree("a.prod(0, 'f')", 'lenA', SH['matrix'], N.dterm(W.dim('n'))))
    S.add("a.var(0, 'f', None, 1) of a matrix", agree, "a.var(0, 'f', None, 1)", 'lenA', SH['matrix'], C(2))
    S.add("a.std(0, 'f', None, 1) of a matrix", agree, "a.std(0, 'f', None, 1)", 'lenA', SH['matrix'], ONE)
    # which axes, and in which order
    for src in ('a.trace(0, 1, 2)', 'a.trace(1, axis1=2, axis2=0)', 'a.trace(-1, 2, 1)', 'a.diagonal(0, 1, 2)', 'a.diagonal(1, axis1=2, axis2=0)', 'a.diagonal(offset=-1)',
                'a.swapaxes(1, 2)', 'a.swapaxes(-1, 0)', 'a.transpose(1, 2, 0)', 'a.transpose((2, 0, 1))', 'a.transpose()', 'a.T', 'a.transpose(None)',
                'a.sum((0, 1))', 'a.sum(axis=(0, 2))', 'a.mean((1, 2))', 'a.max((0, 2))', 'a.min(axis=(-1, 0))', 'a.std((0, 1))', 'a.nansum((0, 2))', 'a.nanmean((0, 1))', 'a.nanmax((0, 1))',
                'a.sum(2)', 'a.mean(-2)', 'a.cumsum(2)', 'a.cumsum(-2)', 'a.repeat(2, 1)', 'a.repeat(3, axis=-1)', 'a.take([1, 0], 1)', 'a.take([0], axis=-1)', 'a.take(1, 2)', 'a.squeeze()',
                "a.flatten('F')", "a.ravel(order='F')", "a.reshape(-1, order='F')", "a.flatten('C')", "a.ravel('C')", "a.copy('F')", 'np.ravel(a, order="F")', "np.reshape(a, -1, order='F')",
                'np.transpose(a, (1, 0, 2))', 'np.swapaxes(a, 0, 2)', 'np.trace(a, 1, 2, 0)', 'np.diagonal(a, 0, 1, 2)', 'np.sum(a, axis=(0, 1))', 'np.mean(a, (1, 2))', 'np.moveaxis(a, 0, 2)',
                'np.rollaxis(a, 2)', 'np.expand_dims(a, 1)', 'np.sort(a, axis=0)', 'np.sort(a, 1)'):
        for sh in ('cube', '2x1x2', '2x3x4'):
            S.add('%s of shape %s' % (src, sh), lambda src, sh: agree(src, 'lenA', SH[sh], ONE, 'float64', 'np.%s(a, %s' % (src[2:].split('(', 1)[0], src.split('(', 1)[1]) if '.nan' in src else None), src, sh)
    for src in ("a.reshape((3, 2), order='F')", "a.reshape(3, -1, order='F')", "a.reshape(2, 3)", 'a.reshape((6,))', "a.reshape([3, 2])", "a.reshape(1, 6)", 'a.squeeze(0) if 0 else a', "a.flatten('F')", "a.ravel('F')", "a.ravel('K')", "a.flatten('A')", "a.flatten(order='K')",
                'a.transpose(0, 1)', 'a.transpose(1, 0)', "a.reshape(3, 2).T.flatten('F')", "a.T.ravel('F')"):
        S.add('%s of shape 2x3' % src, agree, src, 'lenA', SH['2x3'], ONE)
    # one element, no element, three axes
    for name in RED + ['var', 'argmax', 'argmin', 'nanargmax', 'nanargmin', 'argsort', 'sort_', 'all', 'any']:
        for sh in ('1', '1x1', 'row', '2x1', '2x1x2', 'cube', '0', '0x2'):
            for arg in ('', '0', 'axis=-1', 'axis=1'):
                if arg == 'axis=1' and len(SH[sh]) < 2 or name in ('all', 'any', 'sort_'):
                    continue
                def f(name, sh, arg):
                    src = 'a.%s(%s)' % (name, arg)
                    ref = 'np.%s(a%s)' % (name, ', ' + arg if arg else '') if name.startswith('nan') or name == 'ptp' else src
                    try:
                        plain(ref, SH[sh])
                    except Raised:
                        a = operand(W, 'a', 'lenA', shp(W, SH[sh]))
                        W.refuse('_r = ' + src, ('ValueError', 'IndexError'), '%s of shape %s' % (src, SH[sh]), a=a)
                        return
                    agree(src, 'lenA', SH[sh], None if name.startswith('arg') or name.startswith('nanarg') else C(2) if name == 'var' else ONE, 'float64', ref)
                S.add('a.%s(%s) of shape %s' % (name, arg, sh), f, name, sh, arg)
    # positions into an array
    for name in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
        for sh, arg in (('matrix', 'axis=0'), ('matrix', '1'), ('vector', '0')):
            def f(name, sh, arg):
                src = 'a.%s(%s)' % (name, arg)
                p = plain('np.%s(a, %s)' % (name, arg), SH[sh])
                a = operand(W, 'a', 'lenA', shp(W, SH[sh]))
                o = W.arr('o', W.shape(p), 'int64')
                src = 'a.%s(%s, out=o)' % (name, arg)
                ka = W.snap(a)
                r = W.ev(src, a=a, o=o)
                want(src, r is o, 'did not return the output array')
                compare_plain(src, r, p)
                W.unchanged(src, ka, a)
            S.add('a.%s(%s) of a %s into an array' % (name, arg, sh), f, name, sh, arg)

    for name in RED + ['var', 'prod']:
        k = C(2) if name == 'var' else ONE
        for sh, arg in (('vector', ''), ('matrix', 'axis=0'), ('matrix', 'axis=1'), ('matrix', '')):
            if name == 'prod':
                if sh != 'vector':
                    continue
                k = W.dim('n')
            for u, ou in (('lenA', 'timA'), ('frcA', 'pq.dimensionless'), ('lenA', 'lenA'), ('lenA/timA', 'lenB/timA')):
                if name.startswith('nan') or name == 'ptp':
                    def f(name, arg, u, ou, sh, k):
                        p = plain('np.%s(a%s)' % (name, ', ' + arg if arg else ''), SH[sh])
                        a = operand(W, 'a', u, shp(W, SH[sh]))
                        o = operand(W, 'o', ou, W.shape(p))
                        src = 'a.%s(%s%sout=o)' % (name, arg, ', ' if arg else '')
                        r = W.ev(src, a=a, o=o)
                        want(src, r is o, 'did not return the output array')
                        W.want_units(src, o, dims_of(u))
                        W.want_mag(src, o, W.mag(p))
                    S.add('a.%s(%s) of %s into a %s %s' % (name, arg, u, sh, ou), f, name, arg, u, ou, sh, k)
                else:
                    S.add('a.%s(%s) of %s into a %s %s' % (name, arg, u, sh, ou), into, name, arg, u, ou, sh, k, None)
        if name not in ('nansum', 'nanmean', 'nanstd', 'nanmax', 'nanmin', 'ptp', 'prod'):
            S.add('a.%s into a plain array' % name, into_plain, name, 'axis=0', 'matrix')

    for sh in ('vector', 'matrix', 'scalar'):
        for f in forms('var', sh):
            for u in UNITS_:
                S.add('a.%s of a %s of %s' % (f, sh, u), agree, 'a.' + f, u, SH[sh], C(2))
    for args in ('ddof=1', 'axis=0, ddof=1', 'ddof=2', 'axis=1, ddof=3', 'axis=-2, ddof=0'):
        for name, k in (('var', 2), ('std', 1)):
            S.add('a.%s(%s)' % (name, args), agree, 'a.%s(%s)' % (name, args), 'lenA', SH['matrix'], C(k))
        S.add('a.nanstd(%s)' % args, agree, 'a.nanstd(%s)' % args, 'lenA', SH['matrix'], ONE, 'float64', 'np.nanstd(a, %s)' % args)

    # products
    for u in UNITS_:
        for sh, src, k in (('vector', 'a.prod()', ('n',)), ('matrix', 'a.prod()', ('n', 'k')), ('matrix', 'a.prod(0)', ('n',)),
                           ('matrix', 'a.prod(1)', ('k',)), ('matrix', 'a.prod(axis=-1)', ('k',)), ('matrix', 'a.prod(axis=-2)', ('n',)), ('cube', 'a.prod(1)', ('k',)), ('cube', 'a.prod(-2)', ('k',)),
                           ('cube', 'a.prod(axis=-3)', ('n',)), ('cube', 'a.prod()', ('n', 'k', 'm')), ('1x1', 'a.prod(0)', (1,)), ('scalar', 'a.prod()', ()),
                           ('3', 'a.prod()', (3,)), ('2x3', 'a.prod()', (6,)), ('2x3', 'a.prod(0)', (2,)), ('2x3', 'a.prod(1)', (3,)),
                           ('vector', 'np.prod(a)', ('n',)), ('matrix', 'np.prod(a, axis=0)', ('n',)), ('matrix', 'np.prod(a, axis=1)', ('k',))):
            def f(u, sh, src, k):
                agree(src, u, SH[sh], T.mul(*[N.dterm(d) for d in shp(W, k)]) if k else ONE)
            S.add('%s of a %s of %s' % (src, sh, u), f, u, sh, src, k)
    for u in ('lenA', 'frcA', 'ratA', 'pq.radian'):
        for src in ('a.cumprod()', 'a.cumprod(0)', 'np.cumprod(a)'):
            def f(u, src):
                a = operand(W, 'a', u)
                k = W.snap(a)
                W.refuse('_r = ' + src, ('ValueError', 'TypeError'), '%s of %s' % (src, u), a=a)
                W.unchanged(src, k, a)
            S.add('%s of %s refused' % (src, u), f, u, src)
    for src in ('a.cumprod()', 'a.cumprod(0)', 'a.cumprod(axis=-1)'):
        S.add('%s of pure numbers' % src, agree, src, 'pq.dimensionless', SH['matrix'], ZERO)

    # positions are plain numbers
    for name in ARG:
        for sh in ('vector', 'matrix'):
            for f in forms(name, sh):
                src = 'a.' + f
                ref = None
                if name.startswith('nan'):
                    inner = f[len(name) + 1:-1]
                    ref = 'np.%s(a%s)' % (name, ', ' + inner if inner else '')
                for u in ('lenA', 'frcA'):
                    S.add('%s of a %s of %s' % (src, sh, u), agree, src, u, SH[sh], None, 'float64', ref)
    S.add('a.nonzero()', agree, 'a.nonzero()', 'lenA', SH['vector'], None)
    for src in ('np.argmax(a)', 'np.argmin(a)', 'np.argmax(a, axis=0)', 'np.argmin(a, axis=1)', 'a.all()', 'a.any()',
                'a.shape', 'a.ndim', 'a.size', 'len(a)', 'np.shape(a)', 'np.size(a)', 'np.ndim(a)'):
        def f(src):
            try:
                p = plain(src, SH['matrix'])
            except Raised:
                return
            a = operand(W, 'a', 'lenA', shp(W, SH['matrix']))
            r = W.ev(src, a=a)
            if src in ('a.all()', 'a.any()'):
                W.want_mag(src, r, W.mag(p))
            elif src in ('a.shape', 'np.shape(a)'):
                want_shape(src, [B.term_of(x) for x in r], [B.term_of(x) for x in p])
            else:
                compare_plain(src, r, p)
        S.add(src, f, src)

    # shape changes and copies keep units
    for name in NOAX:
        for sh in ('matrix', 'vector', 'scalar', '2x3') if thorough else ('matrix', 'vector'):
            for u in UNITS_[:3] + (UNITS_[3:] if thorough else []):
                src = 'a.' + name
                S.add('%s of a %s of %s' % (src, sh, u), agree, src, u, SH[sh], ONE)
    for t in FUNCS:
        for arg, sh in (('', 'matrix'), (', axis=0', 'matrix'), (', 1', 'matrix'), ('', 'vector'), (', axis=-1', 'matrix')):
            for u in UNITS_[:3]:
                S.add('%s of a %s of %s' % (t % arg, sh, u), agree, t % arg, u, SH[sh], ONE)
    for arg, sh in (('', 'matrix'), (', axis=0', 'matrix'), ('', 'vector'), (', ddof=1', 'vector')):
        S.add('np.var(a%s) of a %s' % (arg, sh), agree, 'np.var(a%s)' % arg, 'lenA', SH[sh], C(2))
    for src in FUNCS1:
        for u in UNITS_[:3]:
            S.add('%s of %s' % (src, u), agree, src, u, SH['matrix'], ONE)
    # builtins
    for src in ('max(a)', 'min(a)', 'abs(a)', 'sorted(a)[0]'):
        for sh in ('3',):
            S.add('%s of %s' % (src, sh), agree, src, 'lenA', SH[sh], ONE)

    # clip
    def clip(ua, ul, uh, form, osh=False):
        a = operand(W, 'a', ua)
        lo, hi = W.q(W.arr('lo'), ul), W.q(W.arr('hi'), uh)
        va, vl, vh = W.si(a)[0], W.si(lo)[0], W.si(hi)[0]
        t = va
        if 'lo' in form:
            t = raw('maximum', t, vl)
        if 'hi' in form:
            t = raw('minimum', t, vh)
        ka, kl, kh = W.snap(a), W.snap(lo), W.snap(hi)
        kw = {'a': a, 'lo': lo, 'hi': hi}
        if 'out' in form:
            kw['o'] = operand(W, 'o', 'timA')
        r = W.ev(form, '%s in %s, %s, %s' % (form, ua, ul, uh), **kw)
        if 'out' in form:
            want(form, r is kw['o'], 'did not return the output array')
        W.want_q(form, r)
        W.want_units(form, r, dims_of(ua))
        W.want_value(form, r, t)
        W.unchanged(form, ka, a)
        W.unchanged(form, kl, lo, 'the lower bound')
        W.unchanged(form, kh, hi, 'the upper bound')
    for ua, ul, uh in (('lenA', 'lenA', 'lenA'), ('lenA', 'lenB', 'lenA'), ('lenA', 'lenA', 'lenB'), ('lenA', 'lenB', 'pq.m'),
                       ('frcA', 'masA*lenA/timA**2', 'frcA'), ('ratA', 'ratB', 'pq.dimensionless'), ('pq.m', 'lenA', 'lenB'), ('pq.m', 'pq.km', 'pq.m'), ('pq.s', 'pq.s', 'pq.min'),
                       ('pq.m/pq.s', 'velA', 'lenA/timA'), ('lenA', 'lenC', 'pq.m'), ('pq.dimensionless', 'ratA', 'pq.percent'), ('lenA*masA*timA*pq.K', 'lenB*masA*timA*pq.K', 'lenA*pq.kg*timB*pq.K')):
        for form in ('a.clip(lo, hi)', 'a.clip(min=lo, max=hi)', 'a.clip(lo)', 'a.clip(max=hi)', 'a.clip(None, hi)',
                     'np.clip(a, lo, hi)', 'a.clip(lo, hi, out=o)'):
            S.add('%s in %s, %s, %s' % (form, ua, ul, uh), clip, ua, ul, uh, form)
    for form in ('a.clip(x)', 'a.clip(x, hi)', 'a.clip(lo, x)', 'a.clip(max=x)', 'a.clip(t, hi)', 'a.clip(lo, t)', 'a.clip(t, t)',
                 'a.clip()', 'a.clip(max=t)', 'np.clip(a, x, x)', 'np.clip(a, t, hi)'):
        def f(form):
            a, lo, hi, t = operand(W, 'a', 'lenA'), W.q(W.arr('lo'), 'lenA'), W.q(W.arr('hi'), 'lenB'), W.q(W.arr('t'), 'timA')
            k = W.snap(a)
            W.refuse('_r = ' + form, ('ValueError', 'TypeError', 'AttributeError'), form + ' with plain x, a time t', a=a, lo=lo, hi=hi, t=t,
                     x=W.num('x', positive=True))
            W.unchanged(form, k, a)
        S.add(form + ' refused', f, form)

    # searching
    def search(form):
        a = operand(W, 'a', 'lenA')
        v = W.q(W.vec('v', W.dim('k')), 'lenA')
        p = W.ev(form, a=W.vec('a', W.dim('n')), v=W.vec('v', W.dim('k')))
        r = W.ev(form, a=a, v=v)
        compare_plain(form, r, p)
    for form in ('a.searchsorted(v)', "a.searchsorted(v, 'right')", "a.searchsorted(v, side='left')"):
        S.add(form, search, form)
    for form in ("a.searchsorted(v[0], 'right')", 'a.searchsorted(v[0])', "a.searchsorted(v, 'left', np.argsort(a.magnitude) if hasattr(a, 'magnitude') else np.argsort(a))") [:2]:
        S.add(form, search, form)
    for src in ('a.argsort(axis=None)', 'a.argsort(None)', "a.argsort(kind='stable')", "a.argsort(1, 'stable')", 'a.argsort(-2)'):
        for sh in ('matrix', 'cube'):
            S.add('%s of shape %s' % (src, sh), agree, src, 'lenA', SH[sh], None)
    for src in ('a.take(0)', 'a.take(-1)', 'np.take(a, 1)', 'a.take(0, axis=0)', 'a.take(0, 0)', "a.take(7, mode='wrap')", "a.take(7, 0, mode='clip')", 'a.take([0])', 'a.take([[0, 1], [1, 0]])',
                'a.take(np.int64(1))', 'a.take(np.array(1))', 'a.take(i)', 'a.take(1, axis=-1)', "a.take([5, -1], axis=-1, mode='wrap')", "a.take([5, -7], 0, mode='clip')", 'a.take(0)*2', 'a.take([1, 0])[0]'):
        for sh in ('vector', '3', '2x3', 'matrix'):
            for u in ('lenA', 'frcA') + (('pq.dimensionless', 'ratA') if thorough else ()):
                if 'i)' not in src:
                    S.add('%s of a %s of %s' % (src, sh, u), agree, src, u, SH[sh], ONE)
    for src in ('round(a)', 'round(a, 1)', 'a.round()', 'a.round(-1)', 'round(a, -2)', 'np.round(a)', 'np.around(a, 2)', 'np.rint(a)'):
        for sh in ('vector', 'scalar'):
            for dt in ('float64', 'float32') if '-' in src else ('float64', 'int64', 'float32'):
                S.add('%s of a %s of %s' % (src, sh, dt), agree, src, 'lenA', SH[sh], ONE, dt, 'np.around(a%s)' % src[len('round(a'):-1] if src.startswith('round') else None)
    for uv in ('timA', 'lenA**2', 'pq.dimensionless', None, 'timC', 'lenA*timA', 'masA', 'lenA**-1'):
        def f(uv):
            a = operand(W, 'a', 'lenA')
            v = W.vec('v', W.dim('k')) if uv is None else W.q(W.vec('v', W.dim('k')), uv)
            W.refuse('_r = a.searchsorted(v)', ('ValueError', 'TypeError'), 'searchsorted for %s' % uv, a=a, v=v)
        S.add('searchsorted for %s refused' % uv, f, uv)

    def search_alike(ua, uv):
        a, v = operand(W, 'a', ua), W.q(W.vec('v', W.dim('k')), uv)
        ratio = T.div(W.factor(dims_of(uv))[0], W.factor(dims_of(ua))[0])
        p = W.ev('a.searchsorted(v)', a=W.vec('a', W.dim('n')), v=N.plain(T.mul(T.sym('v'), ratio), (W.dim('k'),), spec.F8))
        refused_or(W, '_r = a.searchsorted(v)', lambda r: compare_plain('searchsorted of other units', r, p), a=a, v=v)
    for ua, uv in [('lenA', 'lenB')] + TWIN_ALIKE:
        S.add('searchsorted in %s for %s' % (ua, uv), search_alike, ua, uv)

    # in-place sorting keeps the units
    for form in ('a.sort()', 'a.sort(axis=0)'):
        def f(form):
            a, p = operand(W, 'a', 'lenA', shp(W, SH['matrix'])), W.arr('a', shp(W, SH['matrix']))
            W.do(form, a=a)
            W.do(form, a=p)
            W.want_units(form, a, dims_of('lenA'))
            W.want_mag(form, a, W.mag(p))
        S.add(form, f, form)

    # lists
    def tolist(sh):
        a = operand(W, 'a', 'lenA/timA', shp(W, sh))
        k = W.snap(a)
        r = W.ev('a.tolist()', a=a)

        def walk(l, idx):
            if len(idx) == len(sh):
                W.want_q('tolist element', l)
                W.want_units('tolist element', l, dims_of('lenA/timA'))
                e = W.ev('a' + ''.join('[%d]' % i for i in idx), a=W.arr('a', shp(W, sh)))
                W.want_mag('tolist element %s' % (idx,), l, W.mag(e))
                return
            want('tolist', isinstance(l, AList) and len(l.items) == sh[len(idx)], 'is %s' % W.show(l))
            for i, x in enumerate(l.items):
                walk(x, idx + [i])
        walk(r, [])
        W.unchanged('tolist', k, a)
    for sh in ((3,), (2, 2), (1, 2), (), (2, 1, 2), (1,), (2, 1), (1, 1), (1, 1, 1), (0,), (2, 0), (0, 2)):
        S.add('tolist of shape %s' % (sh,), tolist, sh)

    # parts of complex quantities
    for src in ('a.real', 'a.imag', 'a.conj()', 'abs(a)'):
        S.add('%s of complex numbers' % src, agree, src, 'lenA', SH['vector'], ONE, 'complex128')

    def setpart(part):
        a = operand(W, 'a', 'lenA', dtype='complex128')
        b = operand(W, 'b', 'lenB')
        vb = W.si(b)[0]
        other = 'imag' if part == 'real' else 'real'
        o0 = W.mag(W.ev('a.' + other, a=a))
        W.do('a.%s = b' % part, a=a, b=b)
        W.want_units('a.%s = b' % part, a, dims_of('lenA'))
        W.want_value('a.%s = b' % part, W.ev('a.' + part, a=a), vb)
        W.want_mag('a.%s = b: the other part' % part, W.ev('a.' + other, a=a), o0)
    S.add('assignment to the real part', setpart, 'real')
    S.add('assignment to the imaginary part', setpart, 'imag')
    for part in ('real', 'imag'):
        def f(part):
            a, b = operand(W, 'a', 'lenA', dtype='complex128'), operand(W, 'b', 'timA')
            k = W.snap(a)
            W.refuse('a.%s = b' % part, ('ValueError',), a=a, b=b)
            W.unchanged('a.%s = b' % part, k, a)
        S.add('assignment to the %s part refused' % part, f, part)
    return S.items, {}
