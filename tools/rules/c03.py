from vlib.rulelib import *
from vlib import txlib, fslib, sqlan
from vlib.check import closure_job, spawned_closures

ID = 'C03'
RULE = '''
On every path of the reclaimer, for each hole punched, truncation or removal of a values file made on behalf of a removed
value v (offset, length as received): a punched range must begin and end on a block boundary; it must begin at or after
v, or at or after the result of a manifest query, for the same file, for the greatest end among all values before v; it
must end at or before the end of v, or at or before the result of a query for the least start among all values after v.
Query coverage is decided from the statement (its aggregate, its conditions and its bound values), the bounds by linear
reasoning over the path's facts (floor/ceiling of offsets to symbolic block sizes included).  Anything unbounded above
(truncation, removal, punching past v with nothing after it) needs the query for values after v to say "none" in a
transaction begun after the whole file was locked.  The command line's punch-missing-holes must punch only between two
consecutive rows of an ordered query of all values of that file, made in a transaction begun after locking.  Undoing a
write truncates no further than where that write began; values files are removed wholesale only after the manifest was
reset.
'''
FLOORS = {'aligned': 10, 'start': 10, 'end': 10, 'unbounded': 4, 'between-rows': 2, 'undo': 1, 'wholesale': 1}
ASSUME = ['two live values never overlap, and values in a values file are committed in the order of their offsets: the space a truncation frees is not written again by a handle that reopens the file (ExclusiveFile::valid_file_name never accepts a name today)',
          'the raw punch-hole debugging command, which punches a given range of a given file, is not covered']

END = sqlan.norm(('bin', '+', ('col', 'file_offset'), ('col', 'value_length')))
START = ('col', 'file_offset')

def strip_null(c):
    if c[0] == 'fn' and c[1] in ('coalesce', 'ifnull') and len(c[2]) == 2 and c[2][1] == ('lit', 0):
        return c[2][0]
    return c

class Bound:
    """a query for the greatest end below / least start above a place in a file"""
    def __init__(self, x):
        self.x = x
        self.side = None
        s = x.s
        if not s or s['k'] != 'select' or s.get('compound') or s.get('group') or [a for a, _ in s['from']] != ['keys'] or len(s['cols']) != 1:
            return
        c = sqlan.norm(strip_null(s['cols'][0]))
        side = None
        if c[0] == 'fn' and c[1] == 'max' and c[2] == (END,):
            side = 'below'
        elif c[0] == 'fn' and c[1] == 'min' and c[2] == (START,):
            side = 'above'
        elif s['limit'] == ('lit', 1) and len(s['order']) == 1:
            o, d = sqlan.norm(s['order'][0][0]), s['order'][0][1]
            if c == END and d == 'desc' and o in (END, START):
                side = 'below'
            elif c == START and d == 'asc' and o in (END, START):
                side = 'above'
        if side is None or s['limit'] not in (None, ('lit', 1)):
            return
        self.file = self.cond = None
        for k in sqlan.conjuncts(s['where']):
            if k[0] != 'bin':
                return
            op, a, b = k[1:4]
            if a[0] == 'param':
                a, b, op = b, a, sqlan.FLIP.get(op, op)
            if op in ('=', 'is') and a == ('col', 'file_id') and b[0] == 'param' and self.file is None:
                self.file = x.param(b[1])
            elif a in (START, END) and op in ('<', '<=', '>', '>=') and b[0] == 'param' and self.cond is None:
                self.cond = (a, op, x.param(b[1]))
            elif (a, op, b) in ((('col', 'value_length'), '>', ('lit', 0)), (('col', 'value_length'), '<>', ('lit', 0)), (('col', 'value_length'), '>=', ('lit', 1))):
                pass
            else:
                return
        if self.file is not None:
            self.side = side

    def covers(self, facts, fid, v_off, v_end):
        """does the query look at every live value before / after v?"""
        if self.side is None or self.file is not fid:
            return False
        if self.cond is None:
            return False
        a, op, p = self.cond
        if self.side == 'below':
            if op == '<=':
                return facts.entails(sub(p, v_off) if a == END else add(sub(p, v_off), I(1)))
            if op == '<':
                return facts.entails(add(sub(p, v_off), I(-1)) if a == END else sub(p, v_off))
        else:
            if op == '>=':
                return facts.entails(sub(v_end, p) if a == START else add(sub(v_end, p), I(1)))
            if op == '>':
                return facts.entails(add(sub(v_end, p), I(-1)) if a == START else sub(v_end, p))
        return False

    def result(self, tr, terms):
        """('none',) / ('some', term) / None"""
        x = self.x
        if x.outcome in ('norow', 'norows'):
            return ('none',)
        if x.ended is not None and not x.rows:
            return ('none',)
        cols = dict(txlib.known_cols(tr))
        for t in terms:
            for y in subterms(t):
                if y.op == 'col':
                    cols.setdefault(y.a[:3], y)
        c = cols.get((x.id, 0, 0))
        if c is None:
            return None
        if c.a[3].startswith('std::option::Option<'):
            d = tr.facts.get(mk('discr', c))
            if d == 0:
                return ('none',)
            if d == 1:
                return ('some', mk('fld', mk('as', c, 1), 0))
            return None
        return ('some', c)

def fileid(P, path):
    """the file id a values file path is made from"""
    for t in subterms(path):
        if t.op == 'fa' and len(t.a) > 1 and isinstance(t.a[1], Term):
            x = t.a[1]
            return x.a[0] if x.op == 'fld' else x
    return None

def fresh_after(S_, tr, x, i):
    """the statement's transaction began (or first read) after event i"""
    for t in S_.order:
        if x in t.ex:
            b = t.begin
            if isinstance(b, int):
                pass
    begun = None
    for j, e in enumerate(tr.events[:x.i]):
        if e.k == 'begin' and e.outcome == 'ok':
            begun = j
    if begun is not None and begun > i:
        return True
    # a deferred transaction's snapshot is taken by its first statement
    if begun is not None and tr.events[begun].behavior == 'Deferred':
        return not any(e.k == 'exec' and e.op != 'prepare' and e.outcome != 'err' for e in tr.events[begun + 1:i + 1]) 
    return False

def reclaim_judge(tr, coll):
    P = tr.I.P
    fs = fslib.FileState(tr)
    S_ = txlib.scan(tr)
    nl = txlib.structf(P, 'NonzeroValueLocation')
    oi, li, fi = nl['file_offset'], nl['length'], nl['file_id']
    bounds = {}
    for x in S_.exs.values():
        bounds[x] = Bound(x)
    for i, e in enumerate(tr.events):
        d = fslib.discards(e)
        if d is not None:
            one(tr, coll, fs, S_, bounds, i, e, d, P, oi, li, fi)
        fs.step(i, e)

def one(tr, coll, fs, S_, bounds, i, e, d, P, oi, li, fi):
    if d[0] == 'path':
        if fslib.not_values_path(d[1]) or e.k == 'open' and not d[1].op == 'join':
            return
        path, off, n = d[1], I(0), None
        what = 'removal'
    else:
        path, off, n = fs.path.get(d[1]), d[2], d[3]
        what = 'punch' if n is not None else 'truncation'
    fid = fileid(P, path) if path is not None else None
    if fid is None or fid.op != 'fld' or fid.a[1] != fi:
        coll.bad('reclaimer:%s:which' % what, 'the reclaimer discards bytes (%s) of a file that is not named by the location of a removed value' % what, e, tr)
        return
    v = fid.a[0]
    if not any(t.op == 'elem' and t.a[0].op == 'recvd' for t in subterms(v)):
        coll.bad('reclaimer:%s:which' % what, 'the reclaimer discards bytes (%s) for %s, which it was not sent' % (what, show(v)), e, tr)
        return
    v_off, v_len = mk('fld', v, oi), mk('fld', v, li)
    v_end = add(v_off, v_len)
    F = fs.facts
    below, above = [], []
    for x, b in bounds.items():
        if x.i < i and b.side is not None and x.ok() and b.covers(F, fid, v_off, v_end):
            (below if b.side == 'below' else above).append((x, b.result(tr, [off] + ([n] if n is not None else []))))
    # where it starts
    good = F.entails(sub(off, v_off))
    for x, r in below:
        good = good or r is not None and (r[0] == 'none' or F.entails(sub(off, r[1])))
    if not good:
        coll.bad('reclaimer:%s:start' % what, 'the %s may begin before the end of a live value before the removed one (starts at %s)' % (what, show(off)), e, tr)
    else:
        coll.ok('start', '%s from %s' % (what, show(off)[:120]))
    # where it ends
    end = add(off, n) if n is not None else None
    if end is not None:
        bs = next((t for t in subterms(end) if t.op == 'blksize'), None) or next((t for t in subterms(off) if t.op == 'blksize'), None)
        if bs is None:
            bs = next((t for f in tr.facts if isinstance(f, Term) for t in subterms(f) if t.op == 'blksize'), None)
        if bs is None or not F.aligned(off, bs) or not F.aligned(end, bs):
            coll.bad('reclaimer:punch:aligned', 'the punched range [%s, %s) is not on block boundaries' % (show(off), show(end)), e, tr)
        else:
            coll.ok('aligned')
        good = F.entails(sub(v_end, end))
        for x, r in above:
            good = good or r is not None and r[0] == 'some' and F.entails(sub(r[1], end))
        if good:
            coll.ok('end', 'punch to %s' % show(end)[:120])
            return
    # unbounded above: nothing may be there, or come
    l = next((l for l in (fs.covers(f, I(0)) for f in ([d[1]] if d[0] == 'range' else [f for f, q in fs.path.items() if q is path])) if l), None)
    if l is None:
        coll.bad('reclaimer:%s:end' % what, 'the %s is not bounded by the end of the removed value or the start of the value after it, and the whole file is not locked' % what, e, tr)
        return
    if any(r is not None and r[0] == 'none' and fresh_after(S_, tr, x, l.i) for x, r in above):
        coll.ok('unbounded', '%s after locking the whole file and finding nothing after the value' % what)
    elif any(r is not None and r[0] == 'none' for x, r in above):
        coll.bad('reclaimer:%s:stale' % what, 'the %s relies on manifest state from before the file was locked' % what, e, tr)
    else:
        coll.bad('reclaimer:%s:end' % what, 'the %s may discard a live value after the removed one' % what, e, tr)

def cli_judge(tr, coll):
    P = tr.I.P
    fs = fslib.FileState(tr)
    S_ = txlib.scan(tr)
    for i, e in enumerate(tr.events):
        d = fslib.discards(e)
        if d is not None and not (d[0] == 'path' and (fslib.not_values_path(d[1]) or e.k == 'open')):
            f = d[1]
            path = fs.path.get(f) if d[0] == 'range' else d[1]
            if path is not None and from_user(path):
                fs.step(i, e)
                continue
            if d[0] != 'range' or d[3] is None or path is None:
                coll.bad('command line:which', 'the command line tool discards bytes of %s' % show(path if path is not None else f), e, tr)
            else:
                between(tr, coll, fs, S_, i, e, f, path, d[2], d[3])
        fs.step(i, e)

def from_user(p):
    while p.op in ('fld', 'as', 'deref'):
        p = p.a[0]
    return p.op == 'arg'

def between(tr, coll, fs, S_, i, e, f, path, off, n):
    F = fs.facts
    end = add(off, n)
    l = fs.covers(f, I(0))
    if l is None:
        coll.bad('command line:lock', 'punch-missing-holes punches without the whole file being locked', e, tr)
        return
    bs = next((t for t in subterms(end) if t.op == 'blksize'), None) or next((t for t in subterms(off) if t.op == 'blksize'), None)
    if bs is None or not F.aligned(off, bs) or not F.aligned(n, bs):
        coll.bad('command line:aligned', 'the range punched by punch-missing-holes is not on block boundaries', e, tr)
    else:
        coll.ok('aligned')
    stale = False
    ents = {t for t in subterms(path) if t.op == 'entname'}
    for x in S_.exs.values():
        if x.i >= i or not x.s or x.s['k'] != 'select' or [a for a, _ in x.s['from']] != ['keys'] or x.s.get('limit') is not None or x.s.get('compound') or x.s.get('group'):
            continue
        cs = sqlan.conjuncts(x.s['where'])
        fp = x.where_param('file_id')
        if fp is None or not ents & set(subterms(fp)):
            continue
        if len(cs) > 1 and not all(c == ('bin', '>', ('col', 'value_length'), ('lit', 0)) or c[:3] == ('bin', '=', ('col', 'file_id')) for c in cs):
            continue
        o = x.s['order']
        if not o or sqlan.norm(o[0][0]) != START or o[0][1] != 'asc':
            continue
        cols = txlib.known_cols(tr)
        prev = I(0)
        okrow = False
        for _, k in x.rows:
            s_, ln = cell(tr, x, k, 'file_offset', cols, (off, n)), cell(tr, x, k, 'value_length', cols, (off, n))
            if txlib.is_empty_row(tr, x, k) is True:
                continue
            if s_ is None or ln is None:
                break
            if (prev is I(0) or F.entails(sub(off, prev))) and F.entails(sub(s_, end)):
                okrow = True
                break
            prev = add(s_, ln)
        if okrow:
            if fresh_after(S_, tr, x, l.i):
                coll.ok('between-rows', 'punches [%s, …) before row %d' % (show(off)[:80], k))
                return
            stale = True
    if stale:
        coll.bad('command line:stale', 'punch-missing-holes relies on manifest state from before the file was locked', e, tr)
    else:
        coll.bad('command line:range', 'the range punched by punch-missing-holes is not between two consecutive values of the file', e, tr)

def cell(tr, x, k, name, cols, terms):
    r = txlib.rowcol(x, k, name)
    if r is None:
        return None
    c = cols.get(r)
    if c is None:
        for t in terms:
            for y in subterms(t):
                if y.op == 'col' and y.a[:3] == r:
                    c = y
    if c is None:
        return None
    if c.a[3].startswith('std::option::Option<'):
        return mk('fld', mk('as', c, 1), 0)
    return c

def undo_judge(name, start):
    """a failed write is undone back to where it began"""
    def judge(tr, coll):
        P = tr.I.P
        fs = fslib.FileState(tr)
        for i, e in enumerate(tr.events):
            d = fslib.discards(e)
            if d is not None:
                if d[0] != 'range' or d[3] is not None:
                    coll.bad(name + ':undo', '%s: %r' % (name, e), e, tr)
                    return
                b = start(P, tr, d[1])
                if not any(fs.facts.entails(sub(d[2], s)) for s in b):
                    coll.bad(name + ':undo', '%s truncates to %s, which may be before the value being written' % (name, show(d[2])), e, tr)
                else:
                    coll.ok('undo', '%s truncates to %s' % (name, show(d[2])))
            fs.step(i, e)
    return judge

def value_start(P, tr, f):
    """where the value in a ValueWriter begins, and where its file was when the call began"""
    i = txlib.structf(P, 'ValueWriter').get('value_file_offset')
    if i is None:
        raise Missing('ValueWriter.value_file_offset')
    out = [mk('pos', f, 0)]
    if f.op == 'fld' and f.a[0].op == 'fld':
        out.append(mk('fld', f.a[0].a[0], i))
    return out

def wholesale_judge(tr, coll):
    """values files go wholesale only with the manifest"""
    reset = vac = False
    for e in tr.events:
        if e.k == 'dbconfig' and 'RESET' in repr(e) and e.d.get('outcome') != 'err':
            reset = 'true' in repr(e).lower()
        elif e.k == 'exec' and reset and e.outcome != 'err' and e.sql.op == 'str' and e.sql.a[0].lower().strip(b'; \n\t') == b'vacuum':
            vac = True
        d = fslib.discards(e)
        if d is not None and d[0] == 'path' and not fslib.not_values_path(d[1]) and e.k == 'fs':
            if not vac:
                coll.bad('open:wholesale', 'opening removes a values file without having reset the manifest', e, tr)
            else:
                coll.ok('wholesale', 'values files removed after the manifest was reset')

def quiet_dir(e, st):
    return e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'err' or e.k == 'assume' and e.t is ENVF and e.v

def jobs(ctx):
    P = ctx.prog()
    B = ctx.prog('bin')
    sp = spawned_closures(ctx)
    if not sp:
        raise Missing('a thread spawned by Handle::new')
    out = []
    for on in (False, True):
        out.append(Job('reclaimer' + (' (whole-file locks)' if on else ''), closure=closure_job(sp[0], {ENVF: on}), judge=reclaim_judge, cfg=dict(K=2, elem_total=1)))
    f = find(B, 'main')
    if not f:
        raise Missing('main of the command line tool')
    def pb(e, st):
        return e.k == 'dbconfig' or e.k == 'fs' and e.op in ('copy', 'tempdir') or e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'err' or e.k == 'assume' and e.t is ENVF and e.v
    for n, c in (('command line', dict(K=2, elem_total=2, err_cap=0)), ('command line (3 rows)', dict(K=3, elem_total=3, err_cap=0, max_traces=20000))):
        out.append(Job(n, f[0], which='bin', judge=cli_judge, cfg=c, prune=pb))
    out.append(Job('open', need(P, 'Handle::new'), judge=wholesale_judge, cfg=dict(K=2, elem_total=1, err_cap=0), prune=quiet_dir))
    for n, s in (('copy_from', 'ValueWriter::copy_from'), ('stage_write', 'BatchWriter::stage_write')):
        for g in find(P, s)[:2]:
            out.append(Job(n, g, judge=undo_judge(n, value_start)))
    return out
