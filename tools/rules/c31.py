from vlib.rulelib import *
from vlib import txlib, fslib
from vlib.txlib import scan
from rules import c01
from rules.c03 import Bound

ID = 'C31'
RULE = '''
On every path of a read (Rust reader, single read, C reader): what is put into the handle's cache of file clones is a file
opened at a path that a successful clone of the values file of that id was just made to, under the same transaction, and
its recorded length is provably at most the end of the last committed value of that file (the result of a max(end) query of
the same transaction) or the end of an extent looked up in it; a snapshot value that uses a cached clone uses the one cached
for its own file id and only when the clone's recorded length is known to be at least the end of the value.  On every path
of a commit that inserts a location in a values file, the clone cached for that file id is removed from the cache after the
manifest transaction committed and before success is returned.
'''
FLOORS = {'cached': 4, 'real': 4, 'length': 4, 'dropped': 4}
ASSUME = ['bytes below the end of a committed value never change in a values file (C02, C03, C10)',
          'existing values files are not reused by later handles (see the finding for C29), so space that a truncation frees is not written again while a clone of it is cached']

def clones(e):
    return e.k in ('minsert', 'mremove') and 'FileClone' in str(e.d.get('ty')) and not local(e.d['loc'])

def local(l):
    """a place in a local variable"""
    return str(l).startswith('L(')

def judge_read(name):
    use = c01.judge_for(name)
    def judge(tr, coll):
        P = tr.I.P
        # how cached clones are used
        c = Coll(name)
        use(tr, c)
        for k, b in c.bad_.items():
            if k.split(':')[-1] in ('cached', 'other-file', 'shape'):
                coll.bad_.setdefault(k, b)
        for _ in range(c.n['cached']):
            coll.ok('cached', c.samples['cached'])
        # what is cached
        fc = txlib.structf(P, 'FileClone')
        S_ = None
        fs = fslib.FileState(tr)
        made = {}
        for i, e in enumerate(tr.events):
            fs.step(i, e)
            if e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'ok':
                d, s = fslib.fileof(e.fd), fslib.fileof(e.arg)
                if d in fs.path and s in fs.path:
                    made[fs.path[d]] = fs.path[s]
            if not (e.k == 'minsert' and clones(e)):
                continue
            S_ = S_ or scan(tr)
            v = at(tr, e.v)
            if v is None:
                coll.bad('%s:shape' % name, '%s: what is put into the cache of file clones is not understood: %s' % (name, show(e.v)), e, tr)
                continue
            f, n = v.a[2][fc['file']], v.a[2][fc['len']]
            p = fs.path.get(f)
            if p not in made:
                coll.bad('%s:not-a-clone' % name, '%s: a file that is not a clone made on this path is put into the cache of file clones' % name, e, tr)
                continue
            if not c01.values_path(made[p], e.key):
                coll.bad('%s:wrong-key' % name, '%s: the clone of %s is cached for file id %s' % (name, show(made[p]), show(e.key)), e, tr)
                continue
            coll.ok('real', '%s: clone of %s' % (name, show(made[p])))
            if bounded(tr, S_, fs, i, n, e.key):
                coll.ok('length', '%s: at most the end of the last committed value' % name)
            else:
                coll.bad('%s:length' % name, '%s: the length recorded for a cached clone (%s) can include bytes that were not committed when it was made' % (name, show(n)), e, tr)
    return judge

def at(tr, v):
    x = c01.unwrap(tr, v)
    return x if x.op == 'agg' and x.a[0].split('::')[-1] == 'FileClone' else None

def bounded(tr, S_, fs, i, n, fid):
    """is n at most the end of what is committed to the file?"""
    if n is I(0):
        return True
    for t in S_.order:
        if not t.begin < i or t.commit is not None and t.commit < i:
            continue
        for x in t.ex:
            if not x.ok() or x.i > i or not x.s or x.k != 'select':
                continue
            b = Bound(x)
            if b.side == 'below' and b.file is fid:
                r = b.result(tr, [n])
                if r and (r[0] == 'some' and (n is r[1] or fs.facts.entails(sub(r[1], n))) or r[0] == 'none' and fs.facts.entails(neg(n))):
                    return True
    v = lookups(tr, fid)
    return any(fs.facts.entails(sub(y, n)) for y in v)

def lookups(tr, fid):
    """ends of the extents recorded as looked up in the file"""
    out = []
    P = tr.I.P
    re_ = txlib.structf(P, 'ReadExtent')
    for e in tr.events:
        if e.k == 'sinsert' and e.key.op == 'agg' and e.key.a[0].endswith('ReadExtent'):
            out.append(add(e.key.a[2][re_['offset']], e.key.a[2][re_['len']]))
    return out

def judge_commit(name):
    def judge(tr, coll):
        if tr.outcome != 'ret' or txlib.succeeded(tr) is False:
            return
        S_ = scan(tr)
        for t in S_.order:
            if t.commit is None:
                continue
            for x in t.ex:
                if not x.ok() or not x.s or x.s['k'] != 'insert' or x.s['table'] != 'keys':
                    continue
                f = payload(file_param(x))
                if f is None:
                    continue
                gone = [i for i, e in enumerate(tr.events) if e.k == 'mremove' and clones(e) and (e.key is f or tr.I.decide(tr.st, mk('eqv', e.key, f)) is True)]
                if not gone:
                    coll.bad('%s:kept' % name, '%s: values are committed to a file and the clone cached for it is kept' % name, x.e, tr)
                elif max(gone) < t.commit:
                    coll.bad('%s:early' % name, '%s: the cached clone is dropped before the values are committed, so a reader can cache one without them' % name, tr.events[gone[-1]], tr)
                else:
                    coll.ok('dropped', name)
    return judge

def file_param(x):
    s = x.s
    if not s.get('cols') or 'file_id' not in s['cols'] or not s.get('rows'):
        return None
    v = s['rows'][0][s['cols'].index('file_id')]
    return x.param(v[1]) if v[0] == 'param' else None

def payload(p):
    """the file id inside an optional parameter"""
    if p is None:
        return None
    o, v = optkind(p)
    if o == 'none':
        return None
    if o == 'some':
        return v
    return p if p.op != 'null' else None

def jobs(ctx):
    P = ctx.prog()
    cfg = dict(K=2, elem_total=1)
    out = []
    out.append(Job('read', script=c01.mk_read(1), judge=judge_read('read'), cfg=cfg, prune=c01.noerr(), maxfail=2))
    out.append(Job('read2 (one file)', script=c01.mk_read(2), judge=judge_read('read'), cfg=dict(K=3, elem_total=1, same_file=True), prune=txlib.either(c01.noerr(), c01.two_found), maxfail=2))
    out.append(Job('read_single', need(P, 'Handle::read_single'), judge=judge_read('read_single'), cfg=cfg, prune=c01.noerr(), maxfail=2))
    out.append(Job('c-read', script=txlib.c_read_script(1, tail=[c01.c_tail]), judge=judge_read('C read'), cfg=cfg, prune=c01.noerr(), maxfail=2))
    for j in txlib.write_roots(P, reads=False, cfg=dict(K=2, elem_total=1), kinds=('commit', 'single-write')):
        j.judge = judge_commit(j.name)
        j.prune = txlib.quiet_send
        out.append(j)
    return out
