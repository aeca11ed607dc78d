"""Both interpreters side by side: the package is evaluated once with and once
without assertions, every fragment in both, on the same path."""
import importlib
import re

from . import common
from .common import *
from .actions import REFUSED, operands

TITLE = 'refusals do not depend on the optimisation level'
LEVEL = 'other'
FLOOR = 900
EXPLAIN = ('relational abstract evaluation: the package is evaluated twice, with assertions and with assertions stripped and __debug__ false (python -O), and on '
           'every path each refused operation has to end with the same class of exception in both')

UN = ['lenA', 'lenB', 'timA', 'ratA', 'pq.dimensionless', 'frcA', 'pq.percent', 'pq.degree']
BINOPS = ['+', '-', '*', '/', '//', '%', '**', '<', '<=', '>', '>=', '==', '!=']
UFUNCS2 = ['add', 'subtract', 'multiply', 'divide', 'floor_divide', 'remainder', 'power', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'arctan2', 'fmod', 'less', 'equal',
           'greater_equal', 'logaddexp', 'copysign', 'nextafter', 'ldexp', 'float_power', 'logical_and', 'heaviside', 'matmul', 'gcd', 'bitwise_and', 'divmod']
UFUNCS1 = ['sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt',
           'square', 'reciprocal', 'negative', 'absolute', 'floor', 'ceil', 'rint', 'trunc', 'sign', 'isnan', 'isfinite', 'deg2rad', 'rad2deg', 'degrees', 'radians', 'conjugate', 'invert',
           'logical_not', 'signbit', 'spacing', 'frexp', 'modf', 'fabs', 'positive', 'unwrap', 'cumsum', 'cumprod', 'sum', 'prod', 'diff', 'ediff1d', 'fix', 'around', 'nansum', 'nanmean', 'nanstd']

#: what the other properties say about refusals, evaluated in both
OTHERS_QUICK = ['c01', 'c05', 'c12', 'c15', 'c17', 'c18', 'c20', 'c21']
REFUSAL = re.compile('refus|differ|incompat|conflict|wrong|bad|invalid|another|mixed')
OTHERS = ['c%02d' % i for i in range(1, 22)]


def outcome(f):
    try:
        f()
        return 'succeeds', None
    except paths.Finding as e:
        return 'does not hold: %s' % e, e
    except spec.PyRaise as e:
        return 'raises %s' % e.exc.cls.name, e
    except Raised as e:
        return 'raises %s' % e.args[0].exc.cls.name, e


def build(root, tier):
    S, O = Suite(root), Suite(root, optimize=True)
    thorough = tier == 'thorough'

    def twin(what, f):
        """f(W) has the same outcome in both"""
        a, _ = outcome(lambda: f(S.W))
        b, _ = outcome(lambda: f(O.W))
        want(what, a == b, '%s; with assertions disabled it %s' % (a, b))
        if a != 'succeeds':
            done('refused')

    def act(src):
        def f(W):
            W.run(src, **operands(W, src))
        twin(src, f)
    for src in REFUSED:
        S.add('action: ' + src, act, src)

    def binary(src, ua, ub, sa, sb):
        def f(W):
            a = W.num('a') if ua is None else W.q(W.arr('a', sa), ua)
            b = (W.arr('b', sb) if sb else W.num('b')) if ub is None else W.q(W.arr('b', sb), ub)
            W.run(src, a=a, b=b)
        twin('%s with %s and %s' % (src, ua or 'a number', ub or 'a number'), f)
    shapes = [((), ()), ((3,), ()), ((3,), (3,))] if thorough else [((3,), ())]
    for ua in UN:
        for ub in UN + [None]:
            for sa, sb in shapes:
                def every(ua=ua, ub=ub, sa=sa, sb=sb):
                    for op in BINOPS:
                        binary('_r = a %s b' % op, ua, ub, sa, sb)
                        if ub is None:
                            binary('_r = b %s a' % op, ua, ub, sa, sb)
                    for op in BINOPS[:7]:
                        binary('a %s= b' % op, ua, ub, sa, sb)
                S.add('operators: %s %s, %s %s' % (ua, sa, ub, sb), every)

                def funcs(fs, mods, ua=ua, ub=ub, sa=sa, sb=sb):
                    for m in mods:
                        for f in fs:
                            if m == 'np' or f in W_pq:
                                binary('_r = %s.%s(a, b)' % (m, f), ua, ub, sa, sb)
                                if ub is None:
                                    binary('_r = %s.%s(b, a)' % (m, f), ua, ub, sa, sb)
                if thorough or sb == () and ub in ('lenB', 'timA', None):
                    for i in range(0, len(UFUNCS2), 7):
                        S.add('functions %d: %s %s, %s %s' % (i, ua, sa, ub, sb), funcs, UFUNCS2[i:i + 7], ('np', 'pq'))
    W_pq = {k for k in S.W.pq.ns}
    for ua in UN:
        for m in ('np', 'pq'):
            def unary(ua=ua, m=m):
                for f in UFUNCS1:
                    if m == 'np' or f in W_pq:
                        def g(W, f=f):
                            W.run('_r = %s.%s(a)' % (m, f), a=W.q(W.arr('a', (3,)), ua))
                        try:
                            twin('%s.%s with %s' % (m, f, ua), g)
                        except paths.Undecided:
                            pass
            S.add('functions of one argument: %s %s' % (m, ua), unary)

    # the refusals the other checks know
    W0, W1 = S.W, O.W
    n = 0
    for name in (OTHERS if thorough else OTHERS_QUICK):
        try:
            m = importlib.import_module('checks.' + name)
        except ImportError:
            continue
        both = []
        for W in (W0, W1):
            common.SHARED = W
            try:
                both.append(dict(m.build(root, tier)[0]))
            finally:
                common.SHARED = None
        for k in both[0]:
            if k in both[1] and (thorough or REFUSAL.search(k)):
                def pair(f=both[0][k], g=both[1][k], k=k):
                    a, e = outcome(f)
                    b, _ = outcome(g)
                    want(k, a == b, '%s; with assertions disabled it %s' % (a, b))
                S.add('%s: %s' % (name.upper(), k), pair)
                n += 1
    return S.items, {'lines': ['%d rules of the other properties evaluated in both' % n]}
