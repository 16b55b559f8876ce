"""Running rules over abstract traces: roots, parallel exploration, findings, evidence."""
import collections, json, os, re, sys, time, traceback
import multiprocessing as mp
from . import export, interp, models, terms
from .interp import Interp, Program, Call, CONT, State
from .terms import mk, show, Term

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'

def strip_generics(s):
    out, d = [], 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
    return re.sub('::(::)+', '::', ''.join(out))

class Missing(Exception):
    """an anchor of the rule (a public function, table, …) is gone"""

class Ctx:
    """The analysed program."""
    def __init__(self):
        e = export.export()
        self.export = e
        self._p = {}

    def prog(self, which='lib'):
        if which not in self._p:
            self._p[which] = Program(self.export[which])
        return self._p[which]

def find(P, sel, one=False):
    """functions whose generic-free path ends in `sel` ("Type::method"), `ext:name`, or `impl:Trait:Type:method`"""
    r = []
    for f in P.F:
        if 'blocks' not in f:
            continue
        if sel.startswith('ext:'):
            if f.get('ext') and f['path'].split('::')[-1] == sel[4:]:
                r.append(f)
            continue
        if sel.startswith('impl:'):
            _, tr, ty, name = sel.split(':')
            if re.search(r'(<&?(\w+::)*%s(<.*>)? as |<impl (<.*> )?)(\w+::)*%s(<.*>)?( for &?(\w+::)*%s(<.*>)?)?>::%s$' % (ty, tr, ty, name), f['name']):
                r.append(f)
            continue
        p = strip_generics(f['path'])
        if p == 'possum::' + sel or p.endswith('::' + sel):
            if p.startswith('possum::') and '{closure' not in p:
                r.append(f)
    return r

def is_generic(P, f):
    """still has unsubstituted type parameters"""
    return f['name'] == f.get('gname')

# ---------------------------------------------------------------- collector

class Coll:
    def __init__(self, root):
        self.root = root
        self.bad_ = {}
        self.n = collections.Counter()
        self.samples = {}
        self.opaque = collections.Counter()
        self.notes = set()

    def ok(self, rule, sample=None):
        self.n[rule] += 1
        if sample is not None and rule not in self.samples:
            self.samples[rule] = sample

    def bad(self, key, msg, ev=None, trace=None):
        if key in self.bad_:
            return
        if ev is None and trace is not None:        # a violation of the path as a whole: named by where in the crate it last did something
            ev = next((e for e in reversed(trace.events) if e.k != 'log' and e.span and str(e.span[0]).startswith('src/')), None)
        self.bad_[key] = dict(key=key, msg=msg, root=self.root, where=loc(ev) if ev is not None else None,
                              fn=getattr(ev, 'fn', None) if ev is not None else None,
                              chain=list(ev.chain) if ev is not None else None,
                              path=pretty(trace, ev) if trace is not None else None)

def loc(ev):
    sp = ev.span
    if not sp:
        return None
    return '%s:%s' % (sp[0], sp[1])

def pretty(tr, ev=None):
    out = []
    for e in tr.events:
        if e.k == 'log':
            continue
        mark = '>>' if e is ev else '  '
        out.append('%s %s [%s] %s' % (mark, e.k, loc(e) or '', repr(e)[len(e.k):][:260]))
    out.append('   => %s %s %s' % (tr.outcome, tr.why or '', show(tr.value)[:200] if isinstance(tr.value, Term) else ''))
    return out[-220:]

# ---------------------------------------------------------------- jobs

class Job:
    """one exploration: a root function or a script of calls"""
    def __init__(self, name, fn=None, which='lib', script=None, cfg=None, args=None, setup=None, judge=None, prune=None, closure=None, deep=None, maxfail=1):
        self.name = name
        self.fn = fn
        self.which = which
        self.script = script
        self.cfg = cfg or {}
        self.args = args
        self.setup = setup
        self.judge = judge
        self.prune = prune
        self.closure = closure
        self.deep = deep
        self.maxfail = maxfail          # library calls that may fail on one path

DEFAULT = dict(K=3, elem_cap=1, elem_total=2, max_traces=60000, max_steps=12000000)
DEEP = dict(K=4, elem_cap=2, elem_total=3, max_traces=400000, max_steps=80000000)
ASSUME = ['library calls behave as modelled in tools/vlib/models.py', 'loops are unrolled to the stated number of abstract iterations, and at most the stated number of library calls fail on one path (one unless said otherwise, two in the thorough tier)',
          'the analysis covers the Linux build of the crate with default features']
_jobs = []
_ctx = None
_deadline = None

@interp.cont('script')
def c_script(I_, st, data, value):
    steps, i, env = data
    if i > 0:
        env = env + (value,)
    if i >= len(steps):
        return value
    st.x['env'] = env
    r = steps[i](I_, st, env)
    if isinstance(r, tuple) and r[0] == 'call':
        return Call(mk('fnid', r[1]), list(r[2]), 'script', (steps, i + 1, env))
    if isinstance(r, tuple) and r[0] == 'skip':
        return c_script(I_, st, (steps, i + 1, env), r[1])
    if isinstance(r, tuple) and r[0] == 'drop':
        return interp.Call(mk('pyfn', r[1]), [], 'script', (steps, i + 1, env))
    return r          # a Term: stop here

FAILS = ('err',)

def pruner(job):
    mf, p0 = job.maxfail, job.prune
    def p(e, st):
        if mf is not None and e.d.get('outcome') in FAILS:
            n = st.x.get('nf', 0) + 1
            st.x['nf'] = n
            if n > mf:
                return True
        return p0 is not None and p0(e, st)
    return p

def run_one(ctx, job, coll):
    P = ctx.prog(job.which)
    cfg = dict(DEFAULT)
    cfg.update(job.cfg)
    I_ = Interp(P, models.Models(), **cfg)
    I_.prune = pruner(job)
    n = [0]
    out = collections.Counter()
    class TL:
        def __len__(self): return n[0]
        def pop(self): pass
    def finish(st, outcome, value=None, why=None):
        if outcome == 'unreachable':
            return
        n[0] += 1
        out[outcome] += 1
        tr = interp.Trace()
        tr.root = I_.root
        ev = []
        p = st.ev
        while p:
            ev.append(p[0])
            p = p[1]
        ev.reverse()
        tr.events = ev
        tr.facts = st.facts
        tr.bounds = st.bounds
        tr.outcome = outcome
        tr.value = value
        tr.why = why
        tr.st = st
        tr.I = I_
        if (n[0] & 255) == 0 and time.time() > _deadline:
            I_.max_steps = 0
        job.judge(tr, coll)
    I_.finish = finish
    I_.stream = TL()
    if job.closure:
        job.closure(ctx, I_, job)
    elif job.script:
        I_.run_script(job.script(P), job.setup)
    else:
        I_.run(job.fn['id'], args=job.args(I_, job.fn) if job.args else None, setup=job.setup)
    return dict(traces=n[0], outcomes=dict(out), truncated=bool(I_.truncated), unmodelled=dict(I_.unmodelled), steps=I_.steps,
                fns=sorted(P.F[i]['path'] for i in I_.visited_fns if P.local(P.F[i])))

def _work(i):
    job = _jobs[i]
    coll = Coll(job.name)
    t = time.time()
    try:
        s = run_one(_ctx, job, coll)
        err = None
    except Missing as e:
        s = {}
        err = e
    except Exception:
        s = {}
        err = traceback.format_exc()
    s['seconds'] = round(time.time() - t, 2)
    return i, coll.bad_, coll.n, coll.samples, coll.opaque, coll.notes, s, err

class Result:
    def __init__(self):
        self.bad = {}
        self.n = collections.Counter()
        self.samples = {}
        self.opaque = collections.Counter()
        self.notes = set()
        self.jobs = []
        self.fns = set()

def run_jobs(ctx, jobs, budget=600):
    global _jobs, _ctx, _deadline
    _jobs, _ctx = jobs, ctx
    _deadline = time.time() + budget
    for j in jobs:
        ctx.prog(j.which)
    res = Result()
    order = list(range(len(jobs)))
    procs = min(8, max(1, len(jobs)))
    if procs == 1:
        it = map(_work, order)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(procs)
        it = pool.imap_unordered(_work, order)
    for i, bad, n, samples, opaque, notes, s, err in it:
        if isinstance(err, Missing):
            raise err
        if err:
            raise Exception('job %s: %s' % (jobs[i].name, err))
        for k, v in bad.items():
            res.bad.setdefault(k, v)
        res.n.update(n)
        for k, v in samples.items():
            res.samples.setdefault(k, v)
        res.opaque.update(opaque)
        res.notes |= notes
        res.fns.update(s.pop('fns', ()))
        res.jobs.append(dict(root=jobs[i].name, **s))
    if pool:
        pool.close()
        pool.join()
    return res

# ---------------------------------------------------------------- spawned threads

def spawned_closures(ctx, limit=1):
    """closures handed to thread::spawn by Handle::new, with the heap they were created in"""
    P = ctx.prog()
    fs = find(P, 'Handle::new')
    if not fs:
        raise Missing('Handle::new')
    I0 = Interp(P, models.Models(), K=2, max_traces=4000, max_steps=400000, err_cap=0)
    I0.prune = lambda e, st: e.k == 'spawn' or len(I0.spawned) >= limit
    I0.run(fs[0]['id'])
    return I0.spawned[:limit]

def closure_job(spawn, extra=None):
    def go(ctx, I_, job):
        fv, mem, ctr, x, span, facts = spawn
        I_.start(None)
        st = I_.new_state()
        st.mem.update(mem)
        st.ctr = ctr
        st.x.update({k: v for k, v in x.items() if k not in ('dead', 'env')})
        st.facts.update({k: v for k, v in facts.items() if interp.Term and k.op == 'envset'})
        st.facts.update(extra or {})
        r = I_.handle(st, Call(fv, []), None, None, span)
        w = I_.work
        if r:
            w = w + [st]
        I_.steps = 0
        I_.work = w
        while I_.work:
            if len(I_.traces) >= I_.max_traces or I_.steps > I_.max_steps:
                I_.truncated = True
                break
            I_.exec(I_.work.pop())
    return go
