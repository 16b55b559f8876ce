"""Entry point of a check: runs one property's rules and writes its evidence."""
import json, os, sys, time, importlib, traceback
from . import check
from .check import VERIF, Missing

KNOWN = os.path.join(VERIF, 'known_findings.txt')

def known(pid):
    """open findings: key -> description"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                k, d = rest.split(' :: ', 1)
                assert k.startswith('key=')
                out[k[4:]] = d
    return out

def main(argv):
    try:
        return main_(argv)
    except Missing as e:
        # what the rule is about is gone from the code: nothing was shown
        pid = argv[1]
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        rp = 'evidence/replay-%s-anchor.json' % pid
        json.dump(dict(key='anchor', msg=str(e)), open(os.path.join(VERIF, rp), 'w'))
        print('anchor: what this rule is about cannot be found in the code: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1

def main_(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('rules.' + pid.lower())
    ctx = check.Ctx()
    ctx.tier = tier
    ctx.pid = pid
    static = check.Coll('static')
    if hasattr(mod, 'static'):
        mod.static(ctx, static)
    jobs = mod.jobs(ctx) if hasattr(mod, 'jobs') else []
    deep = tier == 'thorough'
    if deep:
        for j in jobs:
            c = dict(check.DEEP)
            c.update(j.cfg)
            c.update(j.deep or {})
            j.cfg = c
    res = check.run_jobs(ctx, jobs, 780 if deep else 400) if jobs else check.Result()
    for k, v in static.bad_.items():
        res.bad.setdefault(k, v)
    res.n.update(static.n)
    res.opaque.update(static.opaque)
    res.notes |= static.notes
    for k, v in static.samples.items():
        res.samples.setdefault(k, v)
    if hasattr(mod, 'finish'):
        mod.finish(ctx, res)
    kn = known(pid)
    other = any(k not in kn for k in res.bad)
    # obligations that must have occurred at all (a rule that matched nothing proves nothing)
    for k, n in getattr(mod, 'FLOORS', {}).items():
        if not other and res.n.get(k, 0) < n:
            res.bad.setdefault('floor:' + k, dict(key='floor:' + k, root='-', where=None, fn=None, chain=None, path=None,
                               msg='the code no longer contains what rule "%s" is about: %d instance(s) found, at least %d required' % (k, res.n.get(k, 0), n)))
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    viol = []
    for k in sorted(res.bad):
        b = res.bad[k]
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
        else:
            viol.append(b)
    for f in os.listdir(evd):
        if f.startswith('replay-%s-' % pid):
            os.unlink(os.path.join(evd, f))
    for i, b in enumerate(viol):
        rp = 'evidence/replay-%s-%d.json' % (pid, i)
        json.dump(b, open(os.path.join(VERIF, rp), 'w'), indent=1, default=str)
        print('%s: %s' % (b['key'], b['msg']))
        print('  in %s (root %s) at %s' % (b.get('fn'), b.get('root'), b.get('where')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    traces = sum(j.get('traces', 0) for j in res.jobs)
    cov = dict(
        explanation=mod.RULE.strip(),
        roots=[dict(root=j['root'], paths=j.get('traces'), outcomes=j.get('outcomes'), truncated=j.get('truncated'), seconds=j.get('seconds')) for j in res.jobs],
        paths=traces,
        steps=sum(j.get('steps', 0) for j in res.jobs),
        functions_analysed=len(res.fns),
        functions=sorted(res.fns),
        obligations=sum(res.n.values()) + len(viol),
        discharged=sum(res.n.values()),
        obligations_by_rule=dict(res.n),
        samples=[dict(rule=k, case=v) for k, v in sorted(res.samples.items())][:40],
        undecided=dict(res.opaque),
        notes=sorted(res.notes),
        unmodelled_calls={k: v for j in res.jobs for k, v in (j.get('unmodelled') or {}).items()},
        exhaustive=False,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUME', [])) + check.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d paths of %d roots, %d functions, %d obligations, %d violation(s), %.1f s' % (
        pid, tier, traces, len(res.jobs), len(res.fns), sum(res.n.values()), len(viol), time.time() - t0))
    return 1 if viol else 0
