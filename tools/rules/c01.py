from vlib.rulelib import *
from vlib import txlib, fslib
from vlib.txlib import scan, okret

ID = 'C01'
RULE = '''
On every successful path of a read (Rust reader, single read, C reader), every non-empty value looked up must be pinned
when the transaction it was looked up in is committed, and still when the snapshot is handed out: that transaction took the
manifest's write lock when it began, before the lookup, and between the two the file behind the snapshot value came to be
either (a) a clone of the values file of the value's file id, made in that interval, (b) a cached clone known to be long
enough for the value, or (c) that values file itself with a lock (shared or exclusive) covering [offset, offset+length),
not given up, converted away or closed since.  The extent is the one in the row the lookup read.  Reading from a snapshot
value, and dropping a snapshot, a snapshot value or a file clone, give up no lock, and a snapshot value owns the file clone
it reads from.
'''
FLOORS = {'cloned': 4, 'cached': 4, 'locked': 4, 'reads': 4, 'owns': 1}
ASSUME = ['the bytes of a clone, and of a cached clone up to its recorded length, are the committed ones: C23 and C31',
          'a file stays open as long as the snapshot value that owns it (Rust ownership)']

def rows(P, v, S_):
    """(file id, offset, length, lookup) of a looked-up value; None if it is empty"""
    n = txlib.structf(P, 'Value')
    if v.op != 'agg' or 'location' not in n:
        return 'shape'
    l = v.a[2][n['location']]
    if l.op != 'agg':
        return 'shape'
    if variant_name(P, l) == 'ZeroLength':
        return None
    x = txlib.location(P, l.a[2][0])
    if x is None:
        return 'shape'
    ids = {t.a[0] for y in x[1:] for t in subterms(y) if t.op == 'col'}
    if len(ids) != 1 or next(iter(ids)) not in S_.exs:
        return 'shape'
    return x + (S_.exs[next(iter(ids))],)

def snapshot_values(P, tr):
    """SnapshotValue aggregates in what a read produced"""
    out = []
    seen = set()
    def walk(t, n=0):
        if not isinstance(t, Term) or t in seen or n > 12:
            return
        seen.add(t)
        if t.op == 'agg' and 'SnapshotValue' in t.a[0] and t.a[0].split('<')[0].split('::')[-1] == 'SnapshotValue':
            out.append(t)
            return
        if t.op == 'ref':
            try:
                walk(tr.I.load(tr.st, t), n + 1)
            except Exception:
                pass
            return
        for x in t.a:
            if isinstance(x, Term):
                walk(x, n + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        walk(y, n + 1)
    for t in tr.st.x.get('results', ()):
        walk(t)
    walk(tr.value)
    return out

def judge_for(name):
    def judge(tr, coll):
        if tr.outcome != 'ret' or succeeded(tr) is False:
            return
        P = tr.I.P
        vals = snapshot_values(P, tr)
        if not vals:
            return
        S_ = scan(tr)
        sv = txlib.structf(P, 'SnapshotValue')
        fc = txlib.structf(P, 'FileClone')
        if 'value' not in sv or 'file' not in fc or 'len' not in fc:
            raise Missing('SnapshotValue.value / FileClone.file, .len')
        cl = clone_field(P)
        got = [(v, rows(P, v.a[2][sv['value']], S_)) for v in vals]
        ext = [r[:3] for _, r in got if r is not None and r != 'shape']
        for v, r in got:
            if r == 'shape':
                coll.bad('%s:shape' % name, '%s: the value a snapshot hands out is not one read from the manifest: %s' % (name, show(v.a[2][sv['value']])), tr.events[-1], tr)
                continue
            if r is None:
                continue
            fid, off, n, x = r
            t = S_.exs[x.id] and tx_of(S_, x)
            if t is None or t.commit is None:
                coll.bad('%s:tx' % name, '%s: hands out a snapshot value looked up in no committed transaction' % name, x.e, tr)
                continue
            if t.behavior not in ('Immediate', 'Exclusive'):
                coll.bad('%s:begin' % name, '%s: the lookup is made in a %s transaction, which does not hold the write lock' % (name, t.behavior), x.e, tr)
                continue
            o, c = optkind(v.a[2][cl])
            if o != 'some':
                coll.bad('%s:none' % name, '%s: a non-empty value has no file in the snapshot' % name, x.e, tr)
                continue
            pinned(name, tr, coll, t, x, fid, off, n, unwrap(tr, c), fc, P, ext)
    return judge

def tx_of(S_, x):
    for t in S_.order:
        if x in t.ex:
            return t
    return None

def clone_field(P):
    for t in P.T:
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['n'].split('<')[0].split('::')[-1] == 'SnapshotValue':
            for i, f in enumerate(t['variants'][0]['f']):
                if P.T[f[1]].get('n', '').startswith('std::option::Option<') and 'FileClone' in P.T[f[1]]['n']:
                    return i
    raise Missing('the FileClone a SnapshotValue holds')

def unwrap(tr, c):
    """the FileClone behind an Arc<Mutex<..>>"""
    for _ in range(4):
        if c.op == 'ref':
            c = tr.I.load(tr.st, c)
        elif c.op == 'cell':
            c = c.a[0]
        elif c.op == 'agg' and c.a[0].split('<')[0].split('::')[-1] in ('Mutex', 'Arc', 'RwLock') and len(c.a[2]) == 1:
            c = c.a[2][0]
        else:
            break
    return c

def disjoint(fs, ext):
    """live values of one file do not overlap: the one that begins later ends later"""
    for f, o, n in ext:
        for g, p, m in ext:
            if f is g and o is not p and fs.facts.entails(sub(p, o)):
                fs.facts.ge(sub(add(p, m), add(o, n)))

def pinned(name, tr, coll, t, x, fid, off, n, c, fc, P, ext=()):
    fs = fslib.FileState(tr)
    disjoint(fs, ext)
    lo, hi = x.i, t.commit
    if c.op != 'agg':
        # a cached clone: known by its recorded length
        same = [y for y in subterms(c) if y.op == 'mval' and y.a[1] is fid]
        if not same:
            coll.bad('%s:other-file' % name, '%s: the snapshot value uses a cached clone of another file: %s' % (name, show(c)), x.e, tr)
            return
        lens = [a for fct, b in tr.facts.items() if isinstance(fct, Term) for a in subterms(fct) if a.op == 'fld' and a.a[1] == fc['len'] and same[0] in set(subterms(a.a[0]))]
        if any(fs.facts.entails(sub(a, add(off, n))) for a in lens + [mk('fld', c, fc['len'])]):
            coll.ok('cached', '%s: length of the cached clone compared with the extents' % name)
        else:
            coll.bad('%s:cached' % name, '%s: a cached clone is used without being known to be long enough for the value' % name, x.e, tr)
        return
    f = c.a[2][fc['file']]
    clones = {}
    how = None
    for i, e in enumerate(tr.events):
        fs.step(i, e)
        if e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'ok':
            d, s = fslib.fileof(e.fd), fslib.fileof(e.arg)
            if d in fs.path and s in fs.path:
                clones[fs.path[d]] = (i, fs.path[s])
        if i == hi or i == len(tr.events) - 1:
            p = fs.path.get(f)
            if p is None:
                coll.bad('%s:file' % name, '%s: when the transaction is committed the file of a looked-up value is %s, which was not opened on this path' % (name, show(f)), x.e, tr)
                return
            if p in clones:
                j, src = clones[p]
                if not (t.begin < j < hi) or j < lo:
                    coll.bad('%s:clone-late' % name, '%s: the values file is cloned outside the transaction the value was looked up in' % name, tr.events[j], tr)
                    return
                if not values_path(src, fid):
                    coll.bad('%s:clone-of' % name, '%s: what is cloned (%s) is not the values file of the value looked up' % (name, show(src)), tr.events[j], tr)
                    return
                how = 'cloned'
            else:
                if not values_path(p, fid):
                    coll.bad('%s:path' % name, '%s: the snapshot file (%s) is not the values file of the value looked up' % (name, show(p)), x.e, tr)
                    return
                l = fs.covers(f, off, n, shared=True)
                if l is None:
                    when = 'when its transaction is committed' if i == hi else 'when the snapshot is handed out'
                    had = 'no lock' if not fs.locks(f) else 'a lock that does not cover [offset, offset+length)'
                    coll.bad('%s:unlocked' % name, '%s: a looked-up value has %s on its file %s' % (name, had, when), x.e, tr)
                    return
                how = 'locked'
            if f in fs.closed:
                coll.bad('%s:closed' % name, '%s: the snapshot file is closed' % name, x.e, tr)
                return
    if how:
        coll.ok(how, '%s: %s' % (name, x.desc()[:60]))

def values_path(p, fid):
    """the path of the values file of this id, directly in the instance's directory"""
    if p.op != 'join' or any(y.op in ('tempdir', 'tdpath') for y in subterms(p.a[0])):
        return False
    return any(y is fid for y in subterms(p.a[1])) and not fslib.not_values_path(p)

def judge_use(name):
    def judge(tr, coll):
        for e in tr.events:
            if fslib.lockcall(tr.I.P, e) is not None or fslib.discards(e) is not None or e.k == 'close':
                coll.bad('%s:lock' % name, '%s: using a snapshot value changes a lock on, closes or discards part of its file' % name, e, tr)
        coll.ok('reads', name)
    return judge

def noerr(keep=()):
    """only the paths on which nothing fails, except cloning and non-blocking locks"""
    def p(e, st):
        if e.k == 'sys' and e.name == 'ioctl':
            return False
        return e.d.get('outcome') in ('err', 'disconnected', 'full')
    return p

def two_found(e, st):
    """both keys are found, and were used just now"""
    if e.k == 'exec':
        return e.outcome == 'norows' or e.sql.op == 'str' and e.sql.a[0].lstrip().lower().startswith(b'update')
    return e.k == 'panic' or e.k == 'assume' and e.v is True and e.t.op == 'poisoned'

def mk_read(nkeys):
    base = txlib.read_script(nkeys)
    def script(P):
        steps = base(P)
        val = [f for f in find(P, 'Snapshot::value') if 'Value' in f['name']][:1]
        if not val:
            raise Missing('Snapshot::value')
        nb = len(steps)
        def valn(k):
            def go(I_, st, env):
                snap = okret(env[nb - 1])
                if snap is None:
                    return env[nb - 1]
                if k == 0:
                    st.x['snap'] = I_.alloc(st, snap)
                    st.x['results'] = ()
                else:
                    st.x['results'] = st.x['results'] + (env[-1],)
                v = okret(env[1 + k])
                o, v = optkind(v) if v is not None else (None, None)
                if o != 'some':
                    return ('skip', mk('unit'))
                return ('call', val[0]['id'], [st.x['snap'], v])
            return go
        steps = steps + [valn(k) for k in range(nkeys)]
        return steps
    return script

def c_tail(I_, st, env):
    """the values a C reader has given out"""
    if not txlib.c_ok(I_.P, env[-1]):
        return env[-1]
    r = I_.load(st, I_.load(st, st.x['out']))
    st.x['results'] = (r,)
    return mk('unit')

def jobs(ctx):
    P = ctx.prog()
    out = []
    cfg = dict(K=2, elem_total=1)
    out.append(Job('read', script=mk_read(1), judge=judge_for('read'), cfg=cfg, prune=noerr(), maxfail=2))
    out.append(Job('read2', script=mk_read(2), judge=judge_for('read'), cfg=dict(K=3, elem_total=1), prune=txlib.either(noerr(), two_found), maxfail=2))
    out.append(Job('read2 (one file)', script=mk_read(2), judge=judge_for('read'), cfg=dict(K=3, elem_total=1, same_file=True), prune=txlib.either(noerr(), two_found), maxfail=2))
    out.append(Job('read_single', need(P, 'Handle::read_single'), judge=judge_for('read_single'), cfg=cfg, prune=noerr(), maxfail=2))
    out.append(Job('c-read', script=txlib.c_read_script(1, tail=[c_tail]), judge=judge_for('C read'), cfg=cfg, prune=noerr(), maxfail=2))
    for n, sel in (('read_at', 'impl:ReadAt:SnapshotValue:read_at'), ('view', 'SnapshotValue::view'), ('read', 'SnapshotValue::read')):
        for f in txlib.fnnamed(P, sel)[:2]:
            out.append(Job('SnapshotValue::' + n, f, judge=judge_use('SnapshotValue::' + n)))
    return out

def succeeded(tr):
    return txlib.succeeded(tr)

def static(ctx, coll):
    """dropping a snapshot, its values or file clones runs no code of this crate; a snapshot value owns its clone"""
    P = ctx.prog()
    for t in P.T:
        if t['k'] != 'adt' or t['kind'] != 'struct':
            continue
        b = t['n'].split('<')[0].split('::')[-1]
        if b in ('Snapshot', 'SnapshotValue', 'FileClone') and t.get('local'):
            d = t.get('drop', -1)
            if d is not None and d >= 0:
                coll.bad('drop:' + b, 'dropping a %s runs code' % b)
            for f in t['variants'][0]['f']:
                n = P.T[f[1]].get('n', '')
                if 'FileClone' in n and ('Weak<' in n or n.startswith('&')):
                    coll.bad('weak:' + b, 'a %s does not own the file clones it uses (%s: %s)' % (b, f[0], n))
        if b == 'SnapshotValue':
            i = clone_field(P)
            coll.ok('owns', P.T[t['variants'][0]['f'][i][1]]['n'])
