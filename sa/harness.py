"""Running obligations: exploration, collection of findings, evidence, exit codes.

An obligation is a named function ob(st, C): it sets up abstract inputs, lets the analyser interpret the anchored
code of /repo on them and compares what the code computes with the property's oracle.  It is analysed once per path
partition.  C.check(...) counts a discharged obligation, C.fail(...) records a violation.
"""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from .core import *
from .interp import Interp, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class AnchorError(Exception):
    pass


class Ctx(object):
    """Per-obligation collector."""
    def __init__(self, name):
        self.name = name
        self.checks = 0
        self.viol = {}
        self.visited = set()
        self.sites = set()
        self.st = None
        self.I = None

    def interp(self, st, hooks=None, **kw):
        self.st = st
        self.I = Interp(st, hooks=hooks, **kw)
        return self.I

    def check(self, n=1):
        self.checks += n

    def fail(self, msg, where=None, key=None):
        st, I = self.st, self.I
        if where is None:
            where = I.lastret if I is not None else None
        k = (key or msg, tuple(where) if where else None)
        if k in self.viol:
            self.viol[k]['paths'] += 1
            return
        self.viol[k] = {
            'obligation': self.name, 'message': msg, 'paths': 1,
            'site': {'file': where[0], 'function': where[1], 'line': where[2]} if where else None,
            'path': [{'decision': why, 'taken': d, 'of': n,
                      'at': '%s:%s (%s)' % (w[0], w[2], w[1]) if w else None}
                     for d, n, why, w in (st.ctl.trail if st is not None else [])],
            'events': [{k2: show(v) if not isinstance(v, (str, int, tuple, type(None))) else repr(v)
                        for k2, v in e.items()} for e in (st.events if st is not None else [])][:60],
        }

    def expect(self, cond, msg, where=None, key=None):
        self.checks += 1
        if not cond:
            self.fail(msg, where, key)


def run_ob(arg):
    check, name, fn, opts = arg
    C = Ctx(name)
    t0 = time.time()

    def run(st):
        C.st = st
        C.I = None
        try:
            fn(st, C)
        finally:
            if C.I is not None:
                C.visited |= C.I.visited
    first = []

    def stop():
        # once an obligation is violated its other paths are only sampled; the quick tier has an overall time limit
        now = time.time()
        if C.viol and not first:
            first.append(now)
        return (first and now - first[0] > AFTER_VIOLATION) or (DEADLINE[0] and now > DEADLINE[0])
    inst = 0
    try:
        r = explore(run, max_paths=opts.get('max_paths', 20000), budget=opts.get('budget', 400000), stop=stop)
        if (r.undecided or FORCE_INSTANCES) and not C.viol:
            # the code does something with an unknown input that the analysis cannot follow: analyse it on fixed inputs
            for which in (1, 2):
                INSTANCE[0] = which
                try:
                    r2 = explore(run, max_paths=opts.get('max_paths', 20000), budget=opts.get('budget', 400000), stop=stop)
                finally:
                    INSTANCE[0] = 0
                inst += r2.paths
                r.decisions += r2.decisions
    except AnchorError as e:
        return {'name': name, 'anchor': str(e)}
    except PyRaise as e:
        cls = getattr(e.value, 'cls', None)
        return {'name': name, 'error': 'unexpected exception %s%s at %s while setting up %s' % (
            getattr(cls, 'name', cls), show(getattr(e.value, 'attrs', {}).get('args')), e.where, name)}
    except Exception:
        return {'name': name, 'error': traceback.format_exc()}
    return {'name': name, 'paths': r.paths, 'infeasible': r.infeasible, 'undecided': r.undecided,
            'truncated': r.truncated, 'decisions': r.decisions, 'checks': C.checks,
            'instance_paths': inst, 'viol': list(C.viol.values()), 'visited': C.visited, 'wall': time.time() - t0}


_JOBS = []
DEADLINE = [None]
AFTER_VIOLATION = 10
FORCE_INSTANCES = bool(os.environ.get('SA_INSTANCES'))
QUICK_LIMIT = 720


def _run_idx(i):
    return run_ob(_JOBS[i])


def run_check(mod, cid, tier, seed=1, jobs=None, only=None, verbose=False):
    t0 = time.time()
    DEADLINE[0] = t0 + QUICK_LIMIT if tier == 'quick' else None
    obs = []
    for item in mod.obligations(tier):
        name, fn = item[0], item[1]
        opts = item[2] if len(item) > 2 else {}
        if only and only not in name:
            continue
        obs.append((cid, name, fn, opts))
    global _JOBS
    _JOBS = obs
    if jobs == 1 or len(obs) == 1:
        res = [run_ob(o) for o in obs]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(jobs or min(8, os.cpu_count() or 8)) as pool:
            res = pool.map(_run_idx, range(len(obs)), chunksize=1)
    errs = [r for r in res if 'error' in r]
    anchors = [r for r in res if 'anchor' in r]
    good = [r for r in res if 'checks' in r]
    viol = [v for r in good for v in r['viol']]
    checks = sum(r['checks'] for r in good)
    paths = sum(r['paths'] for r in good)
    und = {}
    for r in good:
        for m, w in r['undecided']:
            und.setdefault(m, [0, r['name']])[0] += 1
    nund = sum(v[0] for v in und.values())
    visited = sorted(set().union(*[r['visited'] for r in good])) if good else []
    wall = time.time() - t0
    status = 0
    # a violated obligation
    replays = []
    if viol:
        status = 1
        os.makedirs(EVID, exist_ok=True)
        seen = {}
        for v in viol:
            k = (v['message'], json.dumps(v['site']))
            seen.setdefault(k, v)
        for i, v in enumerate(list(seen.values())[:20]):
            p = os.path.join(EVID, 'replay-%s-%02d.json' % (cid, i))
            with open(p, 'w') as f:
                json.dump(dict(v, property=cid, rerun='python3 -m sa.run %s --only %r' % (cid, v['obligation'])), f,
                          indent=1, default=str)
            replays.append(p)
            s = v['site']
            print('%s: %s' % ('%s:%s (%s)' % (s['file'], s['line'], s['function']) if s else cid, v['message']))
            print('   obligation: %s' % v['obligation'])
            for d in v['path'][-12:]:
                print('   path: %s -> %s/%s  %s' % (d['decision'], d['taken'], d['of'], d['at'] or ''))
            print('VIOLATION property=%s replay=%s' % (cid, p))
        if len(seen) > 20:
            print('... and %d more distinct violations' % (len(seen) - 20))
    # obligations that could not be set up are reported and recorded; when they are many, the check gives no answer
    if not viol and (len(anchors) + len(errs)) * 2 > len(obs):
        status = 2
    if not viol and not status and (checks == 0 or paths + sum(r['instance_paths'] for r in good) == 0):
        status = 2
    for a in anchors:
        print('ANCHOR-MISSING property=%s %s: %s' % (cid, a['name'], a['anchor']))
    for e in errs:
        print('ERROR property=%s %s: %s' % (cid, e['name'], e['error']))
    if verbose or nund:
        for m, (n, nm) in sorted(und.items())[:30]:
            print('UNDECIDED property=%s x%d %s [%s]' % (cid, n, m, nm))
    trunc = [r['name'] for r in good if r['truncated']]
    if trunc:
        print('NOTE property=%s path bound reached in %d obligations: %s' % (cid, len(trunc), trunc[:5]))
    idle = [r['name'] for r in good if not r['checks']]
    if idle:
        print('NOTE property=%s obligations that checked nothing: %s' % (cid, idle[:5]))
    if verbose:
        for r in sorted(good, key=lambda r: -r['wall'])[:12]:
            print('  %-60s paths=%d inf=%d und=%d checks=%d %.1fs' % (r['name'], r['paths'], r['infeasible'],
                                                                  len(r['undecided']), r['checks'], r['wall']))
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'RULE', mod.__doc__ or '').strip(),
            'rule': getattr(mod, 'RULE', mod.__doc__ or '').strip(),
            'obligations': len(obs), 'path_partitions': paths, 'infeasible_partitions': sum(
                r['infeasible'] for r in good), 'facts_checked': checks,
            'undecided_partitions': nund, 'partitions_on_fixed_inputs': sum(r['instance_paths'] for r in good),
            'undecided_reasons': [
                {'reason': m, 'count': n, 'example': nm} for m, (n, nm) in sorted(und.items())][:40],
            'bounds_reached': trunc[:40],
            'obligations_not_set_up': [r['name'] for r in anchors + errs][:40],
            'functions_analysed': visited,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'analysed_source': REPO,
            'source_digest': source_digest(),
        },
        'assumptions': list(getattr(mod, 'ASSUMES', ASSUMES)),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if tier not in ('quick', 'thorough'):
        ev['tier'] = 'quick'
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (cid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, cid + '.json'))
    print('%s: %s; %d obligations, %d path partitions, %d facts checked, %d undecided, %d functions, %.1fs' % (
        cid, {0: 'holds', 1: 'VIOLATED', 2: 'NO ANSWER'}[status], len(obs), paths, checks, nund, len(visited), wall))
    return status


ASSUMES = [
    'the analyser\'s transfer functions for the Python language and library calls (sa/ops.py, sa/lib.py, sa/ext.py, '
    'sa/orm.py) are right',
    'no code outside /repo\'s hgpl and hgaa packages changes their behaviour (no monkey patching)',
]


def source_digest():
    h = hashlib.sha256()
    for pkg in ('hgpl', 'hgaa'):
        for root, dirs, files in os.walk(os.path.join(REPO, pkg)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.py', '.ini')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


def anchor(I, mod, name):
    """A public name the property is stated about; its absence is an error, not a pass."""
    try:
        return I.get(mod, name)
    except Undecided as e:
        raise AnchorError('%s.%s: %s' % (mod, name, e))
    except PyRaise as e:
        cls = getattr(e.value, 'cls', None)
        raise AnchorError('%s.%s: %s%s' % (mod, name, getattr(cls, 'name', cls), show(e.value.attrs.get('args'))))


def exc_name(e):
    v = e.value if isinstance(e, PyRaise) else e
    c = getattr(v, 'cls', None)
    return getattr(c, 'name', None) or getattr(c, 'path', None) or repr(v)
