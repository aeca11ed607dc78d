"""Run the scenarios of one property, write the evidence, report."""
import collections
import importlib
import json
import os
import resource
import sys
import time

from . import paths
from .values import PyRaise

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ['the abstract semantics of the Python fragment (qsa/interp.py, qsa/builtins_.py, qsa/stdlib.py)',
           'the abstract NumPy 2.0 model (qsa/npmodel.py, qsa/npfuncs.py)',
           'the reference specification (qsa/spec.py, checks/)']


def known_findings(prop):
    """lines 'property=<id> key=<scenario> :: <what>' of known_findings.txt"""
    out = {}
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out[key[len('key='):]] = text
    except FileNotFoundError:
        pass
    return out


def check(prop, tier, root, only=None, jobs=None, verbose=False):
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    mod = importlib.import_module('checks.' + prop.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    print('%s: %s' % (prop, mod.TITLE))
    try:
        scen, info = mod.build(root, tier)
    except PyRaise as e:
        print('analysis error: the package cannot be imported: %s%s at %s' % (
            e.exc.cls.name, e.exc.attrs.get('args'), e.where))
        return 2
    except paths.Finding as e:
        scen, info = [('units', lambda: (_ for _ in ()).throw(e))], {}
    except paths.Undecided as e:
        print('analysis error: the package cannot be analysed: %s' % e)
        return 2
    names = [n for n, f in scen]
    assert len(set(names)) == len(names), [n for n, c in collections.Counter(names).items() if c > 1]
    if only:
        scen = [(n, f) for n, f in scen if only in n]
    t1 = time.time()
    recs = paths.run(scen, jobs, timeout=getattr(mod, 'TIMEOUT', 120), cap=getattr(mod, 'CAP', 64))
    return report(prop, tier, seed, mod, names, recs, info, t0, t1, root, only, verbose)


def report(prop, tier, seed, mod, names, recs, info, t0, t1, root, only, verbose):
    by = collections.defaultdict(list)
    for r in recs:
        by[r['scenario']].append(r)
    known = known_findings(prop)
    viol, und, seen_known = [], [], []
    okpaths = oblig = degen = infeas = 0
    rules = collections.Counter()
    fns = set()
    full = 0
    for n, rs in by.items():
        st = {r['status'] for r in rs}
        for r in rs:
            oblig += r.get('obligations', 0)
            rules.update(r.get('rules') or {})
            fns.update(r.get('fns', ()))
            if r['status'] == 'violation':
                key = r['scenario']
                (seen_known if key in known else viol).append(r)
            elif r['status'] == 'undecided':
                und.append(r)
            elif r['status'] == 'degenerate':
                degen += 1
            elif r['status'] == 'infeasible':
                infeas += 1
            else:
                okpaths += 1
        if st <= {'ok', 'infeasible', 'degenerate'} and 'ok' in st:
            full += 1
    wall = time.time() - t0
    print('analysed %s: %d scenarios (%d fully decided), %d paths decided, %d undecided, %d contradictory; '
          '%d functions entered; %d obligations discharged (%s)' % (
              root, len(by), full, okpaths, len(und), infeas, len(fns), oblig,
              ', '.join('%s %d' % x for x in sorted(rules.items()))))
    for l in info.get('lines', ()):
        print(l)
    for r in und[:(1000 if verbose else 12)]:
        print('UNDECIDED %s: %s%s' % (r['scenario'], r['msg'][:300], ' [%s]' % '; '.join(r['path'])[:300] if verbose else ''))
        if verbose and r.get('tb'):
            print(r['tb'])
    if len(und) > 12 and not verbose:
        print('UNDECIDED ... and %d more' % (len(und) - 12))
    for r in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[r['scenario']]))
    shown = set()
    replay = None
    for r in viol:
        if r['scenario'] in shown:
            continue
        shown.add(r['scenario'])
        if len(shown) <= 15:
            print('violated: rule "%s": %s' % (r['scenario'], r['msg']))
            if r['path']:
                print('    on the path where %s' % '; '.join(r['path'])[:500])
            if r.get('where'):
                print('    through %s' % ', '.join(r['where'][:12]))
    rc = 0
    if viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'root': root,
                       'rerun': 'python3 /verif/check.py %s --only %r' % (prop, viol[0]['scenario']),
                       'violations': [{k: r.get(k) for k in ('scenario', 'msg', 'path', 'where')} for r in viol[:50]]},
                      f, indent=1)
        rc = 1
    floor = getattr(mod, 'FLOOR', 1)
    if not rc and not only:
        if okpaths == 0 or oblig < 1:
            print('analysis error: nothing could be decided')
            rc = 2
        elif oblig < floor:
            print('note: only %d obligations (at least %d expected)' % (oblig, floor))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    if not only:
        write_evidence(prop, tier, seed, mod, by, viol, und, okpaths, oblig, full, rules, fns, wall, info, infeas)
    return rc


def write_evidence(prop, tier, seed, mod, by, viol, und, okpaths, oblig, full, rules, fns, wall, info, infeas):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', mod.TITLE),
        'rules': len(by), 'rules_fully_decided': full, 'paths_decided': okpaths,
        'paths_undecided': len(und), 'paths_contradictory': infeas,
        'obligations': oblig + len(viol) + len(und), 'discharged': oblig,
        'obligations_by_rule': dict(rules),
        'functions_analysed': len(fns), 'functions': sorted(fns)[:400],
        'samples': sorted(by)[:25],
        'undecided': [{'scenario': r['scenario'], 'why': r['msg'][:200]} for r in und[:50]],
        'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
    }
    cov.update(info.get('coverage', {}))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
              'real-number arithmetic: rounding is not modelled; two formulas are the same value when they agree '
              'symbolically or, after normalisation, on sample points of the uninterpreted-term algebra'],
          'wall_s': round(wall, 2), 'violations': len(viol)}
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
