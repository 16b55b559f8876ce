from vlib.rulelib import *
from vlib import txlib, fslib
from vlib.txlib import scan
from rules import c10
from vlib import check as check_

ID = 'C11'
RULE = '''
On every path on which a commit of writes reports success: when the values it replaced are handed to the reclaimer, when a
file goes back to the pool and when success is returned, no file of the writer is still exclusively locked by it anywhere
before the position the file was at when the manifest transaction committed (the lock up to there was removed, or the file
was closed, or its whole-file lock was made shared before the commit); every file of the writer was looked at, and so was every
second handle it keeps to a file that another value writer uses; and a file that goes back to the pool is still exclusively
locked from that position to infinity.  On every path on which staging a value succeeds, the value's file stays with the
batch whose commit unlocks it, and a second handle is only given up if it is to that file.
'''
FLOORS = {'at-send': 2, 'at-pool': 2, 'at-return': 4, 'all-files': 2, 'beyond': 2, 'staged': 1, 'hold': 2}
ASSUME = ['an unlock request over a range of an open file does not fail with a conflict', 'the position of an append-only file is where its last value ends (C10)']

def judge_for(name, vector, hold=None):
    def judge(tr, coll):
        P = tr.I.P
        ef = fslib.EF(P)
        if tr.outcome != 'ret' or txlib.succeeded(tr) is not True:
            return
        def init(f):
            if hold and f.op == 'fld' and f.a[1] == hold.file and f.a[0].op == 'elem' and f.a[0].a[0].op == 'fld' and f.a[0].a[0].a[1] == hold.seq:
                return [fslib.Lock(-1, None, fslib.WR, mk('fld', f.a[0], hold.start), I(0))]
            return ef.init(f)
        fs = fslib.FileState(tr, init)
        S_ = scan(tr)
        cs = [t.commit for t in S_.order if t.commit is not None]
        if not cs:
            coll.bad('%s:no-commit' % name, '%s: reports success without a committed transaction' % name, tr.events[-1] if tr.events else None, tr)
            return
        commit = cs[-1]
        files = []
        for e in tr.events:
            f = e.d.get('file') if e.k in ('fs', 'open') else fslib.fileof(e.fd) if e.k == 'sys' and 'fd' in e.d else None
            if isinstance(f, Term) and f not in files and (c10.is_ef_file(ef, f) or e.k == 'open' and c10.values_name(e.path)):
                files.append(f)
        if vector:
            n = listed(tr, ef.kept)
            if n is None:
                coll.bad('%s:some-files' % name, '%s: success is reported although not every file of the writer had its committed part unlocked' % name, tr.events[-1], tr)
            else:
                coll.ok('all-files', '%s: %d file(s)' % (name, len(n)))
                for x in n:
                    f = mk('fld', x, ef.file)
                    if f not in files:
                        files.append(f)
        if vector and hold and tr.facts.get(ENVF) is not True:
            n = listed(tr, hold.seq)
            if n is None:
                coll.bad('%s:some-holds' % name, '%s: success is reported although not every second handle to a file with committed values was unlocked' % name, tr.events[-1], tr)
            else:
                for x in n:
                    files.append(mk('fld', x, hold.file))
                    tr.st.x[('pos', files[-1])] = mk('fld', x, hold.end)
                    coll.ok('hold', '%s: %s' % (name, show(x)[:60]))
        for i, e in enumerate(tr.events):
            if i > commit:
                if e.k == 'send':
                    check(tr, coll, name, fs, files, e, 'at-send', 'when replaced values are handed to the reclaimer')
                elif e.k == 'minsert' and c10.is_pool(P, e):
                    check(tr, coll, name, fs, files, e, 'at-pool', 'when a file goes back to the pool')
                    beyond(tr, coll, name, fs, ef, e)
            fs.step(i, e)
        check(tr, coll, name, fs, files, tr.events[-1], 'at-return', 'when success is returned')
    return judge

def listed(tr, field):
    """the elements of a list of the writer, if the path looked at all of them"""
    hs = {}
    for t, v in tr.facts.items():
        if t.op == 'has' and t.a[0].op == 'fld' and t.a[0].a[1] == field:
            hs.setdefault(t.a[0], {})[t.a[1]] = v
    if len(hs) != 1:
        return None
    (S, h), = hs.items()
    k = 0
    while h.get(k) is True:
        k += 1
    if h.get(k) is not False:
        return None
    return [mk('elem', S, I(j)) for j in range(k)]

def position(tr, f):
    return tr.st.x.get(('pos', f))

def check(tr, coll, name, fs, files, e, rule, when):
    for f in files:
        ws = [l for l in fs.locks(f) if l.typ == fslib.WR]
        if not ws:
            continue
        p = position(tr, f)
        if p is not None and all(l.start is p or fs.facts.entails(sub(l.start, p)) for l in ws):
            coll.ok(rule, '%s: nothing before %s is exclusively locked' % (name, show(p)[:60]))
            continue
        coll.bad('%s:%s' % (name, rule), '%s: committed bytes are still exclusively locked %s' % (name, when), e, tr)
    if not files or not any(l for f in files for l in fs.locks(f) if l.typ == fslib.WR):
        coll.ok(rule)

def beyond(tr, coll, name, fs, ef, e):
    v = e.v
    f = v.a[2][ef.file] if v.op == 'agg' and v.a[0] == ef.tag else mk('fld', v, ef.file)
    p = position(tr, f)
    if p is None or fs.covers(f, p) is None:
        coll.bad('%s:beyond' % name, '%s: a file goes back to the pool without an exclusive lock from its position on' % name, e, tr)
    else:
        coll.ok('beyond', name)

class Hold:
    """where a batch keeps second handles to the files its value writers use: the list's field, and the fields of its elements"""
    def __init__(self, seq, start, end, file, id_):
        self.seq, self.start, self.end, self.file, self.id = seq, start, end, file, id_

def hold_layout(ctx):
    P = ctx.prog()
    ef = fslib.EF(P)
    efid = txlib.structf(P, 'ExclusiveFile').get('id')
    found = []
    def judge(tr, coll):
        for e in tr.events:
            if e.k != 'push' or e.seq.op != 'ref' or e.v.op != 'agg':
                continue
            fi = [i for i, x in enumerate(e.v.a[2]) if x.op == 'dupfile' and c10.is_ef_file(ef, x.a[0])]
            pr = [p for p in e.seq.a[1] if p[0] == 'f']
            if len(fi) != 1 or not pr:
                continue
            f = e.v.a[2][fi[0]].a[0]
            def at(t):
                r = [i for i, x in enumerate(e.v.a[2]) if x is t]
                return r[0] if r else None
            found.append(Hold(pr[-1][1], at(mk('fld', f.a[0], ef.lco)), at(tr.st.x.get(('pos', f))), fi[0], at(mk('fld', f.a[0], efid))))
    for g in find(P, 'BeginWriteValue::begin')[:1]:
        check_.run_one(ctx, Job('begin', g, judge=judge, cfg=dict(K=2, elem_total=1, err_cap=0)), Coll('begin'))
    return found[0] if found else None

def staged_for(hold):
    def judge(tr, coll):
        P = tr.I.P
        ef = fslib.EF(P)
        if tr.outcome != 'ret' or rkind(tr)[0] != 'ok':
            return
        wf = txlib.field_of_type(P, 'ValueWriter', 'ExclusiveFile')
        fs = fslib.FileState(tr, ef.init)
        kept = None
        for i, e in enumerate(tr.events):
            if e.k == 'push' and e.seq.op == 'ref' and [p for p in e.seq.a[1] if p[0] == 'f'][-1:] and [p for p in e.seq.a[1] if p[0] == 'f'][-1][1] == ef.kept \
                    and not str(e.seq.a[0]).startswith('L('):
                kept = e.v
            if e.k == 'minsert' and c10.is_pool(P, e):
                coll.bad('stage_write:pool', 'stage_write: the file of a staged value goes into the pool before it is committed', e, tr)
                return
            fs.step(i, e)
        if kept is None:
            coll.bad('stage_write:lost', 'stage_write: the file of a staged value does not stay with the batch', tr.events[-1] if tr.events else None, tr)
            return
        f = kept.a[2][ef.file] if kept.op == 'agg' else mk('fld', kept, ef.file)
        if fslib.shared(f) in fs.closed:
            coll.bad('stage_write:closed', 'stage_write: the file of a staged value is closed', tr.events[-1], tr)
            return
        coll.ok('staged', 'stage_write keeps %s' % show(f)[:80])
        if hold is None or hold.id is None:
            return
        own = mk('fld', kept, txlib.structf(P, 'ExclusiveFile')['id'])
        for e in tr.events:
            if e.k == 'close' and e.file.op == 'fld' and e.file.a[1] == hold.file and e.file.a[0].op == 'elem' and e.file.a[0].a[0].op == 'fld' and e.file.a[0].a[0].a[1] == hold.seq:
                i = mk('fld', e.file.a[0], hold.id)
                if tr.I.decide(tr.st, eq(i, own)) is not True and tr.I.decide(tr.st, eq(own, i)) is not True and not same_id(tr, i, own):
                    coll.bad('stage_write:hold', 'stage_write: gives up the locks on values staged in a file other than the one that comes back', e, tr)
                else:
                    coll.ok('own-hold', show(i)[:60])
    return judge

def same_id(tr, a, b):
    for t, v in tr.facts.items():
        if v is True and t.op.startswith('eq') and any(x is a for x in subterms(t)) and any(x is b for x in subterms(t)):
            return True
    return False

def jobs(ctx):
    P = ctx.prog()
    hold = hold_layout(ctx)
    if hold is not None and (hold.start is None or hold.end is None):
        raise Missing('the range that a second handle to a writer\'s file keeps locked')
    pr = [txlib.quiet_send, txlib.nolimit(P)]
    out = []
    for j in txlib.write_roots(P, reads=False, cfg=dict(K=2, elem_total=1), kinds=('commit', 'c-commit', 'single-write')):
        j.judge = judge_for(j.name, 'commit' in j.name, hold)
        j.prune = txlib.either(*([j.prune] if j.prune else []) + pr)
        out.append(j)
        if j.name != 'single-write':
            for on in (False, True):
                out.append(Job(j.name + (' (whole-file locks)' if on else ' (range locks)'), j.fn, judge=judge_for(j.name, True, hold), prune=j.prune,
                               cfg=dict(K=3, elem_cap=2, elem_total=2, err_cap=0), setup=flockmode(on)))
    ss = find(P, 'BatchWriter::stage_write')[:2]
    if not ss:
        raise Missing('BatchWriter::stage_write')
    for g in ss:
        out.append(Job('stage_write', g, judge=staged_for(hold)))
    for g in find(P, 'ext:possum_single_write_buf'):
        out.append(Job('possum_single_write_buf', g, judge=judge_for('possum_single_write_buf', False), cfg=dict(K=2, elem_total=1, err_cap=0),
                       prune=txlib.either(txlib.fresh_file, *pr)))
    return out
