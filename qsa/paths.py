"""Trace partitioning: path choices, path facts and the scenario driver.

The abstract interpreter follows both outcomes of every condition it cannot
decide.  A choice forks the analyser process, so each partition has its own
copy of the abstract heap.
"""
import gc
import json
import mmap
import os
import select
import signal
import struct
import sys
import time
import traceback

from . import term as T


class Undecided(Exception):
    """the analyser cannot follow this path any further"""


class Infeasible(Exception):
    """the facts of this path contradict each other"""


class Finding(Exception):
    """a property violation on this path"""


# ------------------------------------------------------------- path facts
class Facts:
    def __init__(self):
        self.known = {}        # predicate term -> bool
        self.order = []        # predicates usable to filter sample points
        self.subst = {}        # symbol -> term (solved equalities)
        self.degenerate = []   # equalities that could not be solved
        self.log = []          # human readable decisions
        self._points = None

    def norm(self, t):
        m = self.subst
        return T.subst(t, m) if m else t

    def learn(self, pred, val):
        self.known[pred] = val
        self.order.append((pred, val))
        self._points = None

    def points(self, k=4):
        if self._points is None:
            out = []
            for seed in range(400):
                p = T.Point(seed)
                ok = True
                for pred, val in self.order:
                    try:
                        if eval_pred(p, self.norm(pred)) != val:
                            ok = False
                            break
                    except (T.NoValue, KeyError):
                        pass
                if ok:
                    out.append(p)
                    if len(out) == 6:
                        break
            self._points = out
        return self._points[:k]


def eval_pred(p, pred):
    """truth of a predicate at a sample point (KeyError if uninterpreted)"""
    if pred.op == 'const':
        return pred.args[0] != 0
    if pred.op != 'fn':
        raise KeyError
    n = pred.args[0]
    if n == 'eq':
        return T.close(p.ev(pred.args[1]), p.ev(pred.args[2]), 1e-10)
    if n == 'lt':
        return p.ev(pred.args[1]) < p.ev(pred.args[2])
    if n == 'le':
        return p.ev(pred.args[1]) <= p.ev(pred.args[2])
    if n == 'not':
        return not eval_pred(p, pred.args[1])
    if n == 'and':
        return eval_pred(p, pred.args[1]) and eval_pred(p, pred.args[2])
    if n == 'or':
        return eval_pred(p, pred.args[1]) or eval_pred(p, pred.args[2])
    raise KeyError(n)


facts = Facts()


def same(a, b, tol=1e-7):
    """are two terms equal for all values allowed by the path facts?
    True / False / None (no sample point available)"""
    a, b = facts.norm(a), facts.norm(b)
    if a is b:
        return True
    if a.op == 'inf' or b.op == 'inf':
        return False
    good = 0
    for p in facts.points():
        try:
            x, y = p.ev(a), p.ev(b)
        except T.NoValue:
            continue
        if not T.close(x, y, tol):
            # (two values that straddle a boundary of the rounding grid?)
            p2 = T.Point(p.seed, p.vals, 1.00000000041)
            try:
                x, y = p2.ev(a), p2.ev(b)
            except T.NoValue:
                continue
            if not T.close(x, y, tol):
                return None if overlapping(a) or overlapping(b) else False
        good += 1
    return True if good else None


def overlapping(t, seen=None):
    """does the term select from an array of which an unknown part was replaced?"""
    if t.op in ('const', 'sym', 'inf'):
        return False
    if t.op == 'fn' and t.args[0] == 'sel' and isinstance(t.args[1], T.Term) and t.args[1].op == 'fn' and \
            t.args[1].args[0] == 'upd':
        return True
    return any(overlapping(a) for a in t.args if isinstance(a, T.Term))


strictly_positive = T.strictly_positive


def _sign(d):
    """+1, -1, 0 or None"""
    if d.op == 'const':
        v = d.args[0]
        return (v > 0) - (v < 0)
    if strictly_positive(d):
        return 1
    if strictly_positive(T.neg(d)):
        return -1
    return None


def solve(d):
    """symbol, term with d == 0 <=> symbol == term, or None"""
    # linear in a symbol with a constant coefficient
    parts = d.args if d.op == 'add' else (d,)
    for i, p in enumerate(parts):
        c, r = T.split_coeff(p)
        if r.op == 'sym' and c != 0:
            rest = T.add(*[q for j, q in enumerate(parts) if j != i]) if len(parts) > 1 else T.ZERO
            if r in T.symbols(rest):
                continue
            val = T.mul(T.const(-1 / c), rest)
            if r.args[1] and not T.is_scalar(val):
                continue
            if r.args[2] and _sign(val) in (0, -1):
                continue
            if r.args[3] and val.op == 'const' and val.args[0].denominator != 1:
                continue
            return r, val
    # monomial: c*x^e*rest == 0 has no solution for positive symbols
    if d.op == 'add' and len(parts) == 2:
        # a == b with monomials: solve for a positive scalar symbol of a
        a, b = parts[0], T.neg(parts[1])
        for x, y in ((a, b), (b, a)):
            fs = x.args if x.op == 'mul' else (x,)
            for f in fs:
                b_, e_ = T.base_exp(f)
                if b_.op == 'sym' and b_.args[1] and b_.args[2] and e_.op == 'const':
                    rest = T.div(x, f)
                    if b_ in T.symbols(rest) or b_ in T.symbols(y):
                        continue
                    val = T.power(T.div(y, rest), T.const(1 / e_.args[0]))
                    if _sign(val) == 1 and T.is_scalar(val):
                        return b_, val
    return None


def truth(pred):
    """decide a predicate term, partitioning the trace if necessary"""
    p = facts.norm(pred)
    r = _decide(p)
    if r is not None:
        return r
    if _counter is None and generic:
        return _generic(p)
    i = choose(2, T.show(p))
    val = i == 0
    facts.log.append(('' if val else 'not ') + T.show(p)[:200])
    assume(p, val)
    return val


def _generic(p):
    """before the scenarios: the generic case"""
    got = set()
    for q in facts.points():
        try:
            got.add(bool(eval_pred(q, p)))
        except (T.NoValue, KeyError):
            pass
    if len(got) != 1:
        raise Undecided('choice outside a scenario: %s' % T.show(p))
    val = got.pop()
    facts.log.append(('' if val else 'not ') + T.show(p)[:200])
    assume(p, val)
    return val


def _decide(p):
    if p.op == 'const':
        return p.args[0] != 0
    if p.op == 'inf':
        return True
    if p in facts.known:
        return facts.known[p]
    if p.op != 'fn':
        # truth of a number
        return _decide(T.fn('not', T.fn('eq', p, T.ZERO)))
    n = p.args[0]
    if n == 'not':
        r = _decide(p.args[1])
        return None if r is None else not r
    if n == 'and':
        a, b = _decide(p.args[1]), _decide(p.args[2])
        if a is False or b is False:
            return False
        return True if a and b else None
    if n == 'or':
        a, b = _decide(p.args[1]), _decide(p.args[2])
        if a or b:
            return True
        return False if a is False and b is False else None
    if n in ('eq', 'lt', 'le'):
        a, b = p.args[1], p.args[2]
        if a.op == 'inf' or b.op == 'inf':
            return _inf_compare(n, a, b)
        d = T.sub(b, a)
        s = _sign(d)
        if s is not None:
            return {'eq': s == 0, 'lt': s > 0, 'le': s >= 0}[n]
        if n == 'le' and T.nonneg(d):
            return True
        if n == 'lt' and T.nonneg(T.neg(d)):
            return False
        if n == 'eq' and T.fn('eq', b, a) in facts.known:
            return facts.known[T.fn('eq', b, a)]
        if same(a, b, 1e-10) is True:
            return n != 'lt'
        if facts.known.get(T.fn('lt', a, b)) is True:
            return n != 'eq'
        if facts.known.get(T.fn('lt', b, a)) is True:
            return False
        if n == 'le' and facts.known.get(T.fn('lt', b, a)) is False:
            return True
        if n == 'lt' and facts.known.get(T.fn('le', b, a)) is not None:
            return not facts.known[T.fn('le', b, a)]
        return None
    if n in ('any', 'all') and len(p.args) == 2:
        q = p.args[1]
        if q.op == 'const':
            return q.args[0] != 0
        if T.is_scalar(q) and q.op != 'fn':
            return _decide(q)
        return _elementwise(q)
    return None


def _elementwise(q):
    """the truth of a predicate when it is the same for every element"""
    if q.op == 'const':
        return q.args[0] != 0
    if q.op != 'fn':
        s = _sign(q)
        return None if s is None else s != 0
    n = q.args[0]
    if n == 'not':
        r = _elementwise(q.args[1])
        return None if r is None else not r
    if n in ('and', 'or'):
        a, b = _elementwise(q.args[1]), _elementwise(q.args[2])
        if n == 'and':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if n in ('eq', 'lt', 'le'):
        a, b = q.args[1:]
        if T.is_scalar(a) and T.is_scalar(b):
            return _decide(q)
        if n == 'eq' and same(a, b, 1e-10) is True:
            return True
        s = _sign(T.sub(b, a))
        if s is not None:
            return {'eq': s == 0, 'lt': s > 0, 'le': s >= 0}[n]
    return None


def _inf_compare(n, a, b):
    def v(t):
        if t.op == 'inf':
            return {'inf': 1, '-inf': -1}.get(t.args[0])
        return 0
    x, y = v(a), v(b)
    if x is None or y is None:
        return False if 'nan' in (a.args[0], b.args[0]) else None
    if n == 'eq':
        return a is b
    if n == 'lt':
        return x < y
    return x <= y


def assume(p, val):
    n = p.args[0] if p.op == 'fn' else None
    if n is None:
        # truth of a number: nonzero
        assume(T.fn('eq', p, T.ZERO), not val)
        facts.known[p] = val
        return
    if n == 'not':
        facts.known[p] = val
        return assume(p.args[1], not val)
    if n == 'and' and val:
        facts.known[p] = val
        assume(p.args[1], True)
        return assume(p.args[2], True)
    if n == 'or' and not val:
        facts.known[p] = val
        assume(p.args[1], False)
        return assume(p.args[2], False)
    facts.learn(p, val)
    if n == 'eq' and val:
        _assume_eq(p.args[1], p.args[2])
    elif n == 'any' and not val:
        q = p.args[1]
        if q.op == 'sym':
            facts.subst = {k: T.subst(v, {q: T.ZERO}) for k, v in facts.subst.items()}
            facts.subst[q] = T.ZERO
            facts._points = None
        elif q.op == 'fn' and q.args[0] == 'not' and q.args[1].op == 'fn' and q.args[1].args[0] == 'eq':
            _assume_eq(q.args[1].args[1], q.args[1].args[2])
    elif n == 'all' and val and p.args[1].op == 'fn' and p.args[1].args[0] == 'eq':
        _assume_eq(p.args[1].args[1], p.args[1].args[2])


def _assume_eq(a, b):
    # min(x) == max(x): x is uniform
    if a.op == 'fn' and b.op == 'fn' and {a.args[0], b.args[0]} == {'min', 'max'} and a.args[1] is b.args[1] \
            and a.args[1].op == 'sym':
        x = a.args[1]
        u = T.sym('u_' + x.args[0], True, *x.args[2:])
        facts.subst = {k: T.subst(v, {x: u}) for k, v in facts.subst.items()}
        facts.subst[x] = u
        facts._points = None
        return
    s = solve(T.sub(a, b))
    if s is None:
        facts.degenerate.append('%s == %s' % (T.show(a), T.show(b)))
    else:
        m = {s[0]: s[1]}
        facts.subst = {k: T.subst(v, m) for k, v in facts.subst.items()}
        facts.subst[s[0]] = s[1]
        # older facts must not become contradictory
        for pred, v in facts.order:
            r = _const_pred(facts.norm(pred))
            if r is not None and r != v:
                raise Infeasible()
    facts._points = None


def _const_pred(p):
    if p.op == 'const':
        return p.args[0] != 0
    if p.op == 'fn' and p.args[0] in ('eq', 'lt', 'le'):
        a, b = p.args[1], p.args[2]
        if a is b and a.op != 'inf':
            return p.args[0] != 'lt'
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            return {'eq': x == y, 'lt': x < y, 'le': x <= y}[p.args[0]]
    if p.op == 'fn' and p.args[0] == 'not':
        r = _const_pred(p.args[1])
        return None if r is None else not r
    return None


# ------------------------------------------------------------ the scenario driver
_counter = None
_cap = 64
_memo = {}
_trail = []        # the options taken so far on this path
generic = True     # before the scenarios, take the generic case
_script = []       # the options to take first
_fd = None
live = [0]         # suspended generators


def choose(n, label=''):
    """partition the trace: the caller continues once per option"""
    if _counter is None:
        raise Undecided('choice outside a scenario: %s' % label)
    if _script:
        i = _script.pop(0)
        _trail.append(i)
        return i
    if live[0]:
        # a suspended generator lives in a thread, which a fork does not copy:
        # the path is run again from the start, once per option
        c = struct.unpack('l', _counter[:8])[0]
        if c + n - 1 > _cap:
            raise Undecided('more than %d paths (%s)' % (_cap, label))
        _counter[:8] = struct.pack('l', c + n - 1)
        try:
            _emit(_fd, {'again': [_trail + [i] for i in range(n)]})
        finally:
            os._exit(0)
    for i in range(n - 1):
        c = struct.unpack('l', _counter[:8])[0]
        if c >= _cap:
            raise Undecided('more than %d paths (%s)' % (_cap, label))
        _counter[:8] = struct.pack('l', c + 1)
        pid = os.fork()
        if pid == 0:
            _trail.append(i)
            return i
        _, st = os.waitpid(pid, 0)
    _trail.append(n - 1)
    return n - 1


def _emit(fd, rec):
    data = (json.dumps(rec) + '\n').encode()
    while data:
        k = os.write(fd, data)
        data = data[k:]


def _run_path(name, f, fd):
    """run one scenario to the end of this path, write its record, exit"""
    global _fd
    _fd = fd
    rec = {'scenario': name, 'status': 'ok', 'msg': '', 'obligations': 0}
    try:
        from . import spec
        spec.obligations = 0
        spec.rules = {}
        x = f()
        if isinstance(x, (dict, str)):
            rec['extra'] = x
        if facts.degenerate:
            rec['degenerate'] = facts.degenerate
    except Finding as e:
        rec['status'] = 'violation'
        rec['msg'] = str(e)
        rec['where'] = getattr(e, 'where', None)
        if facts.degenerate:
            rec['status'] = 'degenerate'
        elif facts.order and not facts.points():
            rec['status'] = 'undecided'
            rec['msg'] = 'no values found for the path of: ' + rec['msg']
    except Infeasible:
        rec['status'] = 'infeasible'
    except Undecided as e:
        rec['status'] = 'undecided'
        rec['msg'] = str(e)
        if os.environ.get('QSA_DEBUG'):
            rec['tb'] = traceback.format_exc()[-3000:]
    except BaseException as e:
        if os.environ.get('QSA_DEBUG'):
            rec['tb'] = traceback.format_exc()[-3000:]
        rec['status'] = 'undecided'
        rec['msg'] = 'analyser: %s: %s' % (type(e).__name__, str(e)[:300])
    rec['path'] = facts.log
    try:
        rec['obligations'] = spec.obligations
        rec['rules'] = spec.rules
    except NameError:
        pass
    try:
        from . import interp as I
        rec['fns'] = sorted(I.visited)
    except Exception:
        pass
    try:
        _emit(fd, rec)
    finally:
        os._exit(0)


def run(scenarios, jobs=None, timeout=150, cap=64):
    """scenarios: list of (name, callable); returns the path records"""
    global _counter, _cap, _script
    _cap = cap
    jobs = jobs or min(8, os.cpu_count() or 1)
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 50, 50)
    sys.stdout.flush()
    sys.stderr.flush()
    pending = [(name, f, None, None) for name, f in scenarios][::-1]
    active = {}
    out = []
    while pending or active:
        while pending and len(active) < jobs:
            name, f, script, count = pending.pop()
            r, w = os.pipe()
            if count is None:
                count = mmap.mmap(-1, 8)
                count[:8] = struct.pack('l', 1)
            pid = os.fork()
            if pid == 0:
                _counter = count
                _script = list(script or ())
                os.setpgid(0, 0)
                os.close(r)
                for fd in active:
                    os.close(fd)
                _run_path(name, f, w)
            os.close(w)
            active[r] = [pid, name, time.time(), b'', f, count]
        ready, _, _ = select.select(list(active), [], [], 1.0)
        for fd in list(active):
            a = active[fd]
            done = False
            if fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    a[3] += data
                else:
                    done = True
            if not done and time.time() - a[2] > timeout:
                try:
                    os.killpg(a[0], signal.SIGKILL)
                except OSError:
                    pass
                out.append({'scenario': a[1], 'status': 'undecided', 'obligations': 0,
                            'msg': 'time limit', 'path': []})
                done = True
            if done:
                os.close(fd)
                try:
                    os.waitpid(a[0], 0)
                except OSError:
                    pass
                got = 0
                for line in a[3].decode().splitlines():
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    got += 1
                    if 'again' in rec:
                        pending.extend((a[1], a[4], t, a[5]) for t in rec['again'])
                    else:
                        out.append(rec)
                if not got:
                    out.append({'scenario': a[1], 'status': 'undecided', 'obligations': 0,
                                'msg': 'the path died', 'path': []})
                del active[fd]
    return out
