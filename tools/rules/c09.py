from vlib.rulelib import *
from vlib import txlib, fslib
from vlib import check as check_
from vlib.txlib import scan, colref, succeeded
from rules import c10

ID = 'C09'
RULE = '''
The fields of a staged write are identified by the columns of the manifest that the commit binds them to.  (1) On every path
that stages a value, its offset is the value writer's, which is the position its file had when the value was begun (before
anything was written for it on that path; zero in a whole-file clone made there), its length is the file's position when it
is staged, with nothing written in between, minus that offset, its file is the one the value was written to, and its key the
caller's.  (2) Every row a commit inserts holds the key, file, offset and length of one staged write, and no location exactly
when the length is zero.  (3) Writing to or copying into a value writer writes the caller's bytes once to its file and reports
the count.  (4) Every location that a lookup or listing decodes is made from the columns file_id, file_offset and value_length
of one row, which is the row of the key it is reported for, decoded as 64-bit integers, and is empty exactly when the length is zero.
'''
FLOORS = {'begun': 3, 'staged': 4, 'row': 6, 'empty-row': 3, 'written': 3, 'decoded': 6, 'decoded-empty': 3, 'of-key': 4}
ASSUME = ['a file opened for appending writes at its end, and its position is moved to the end of what it wrote (POSIX); nobody else appends (C10)',
          'the caller does not move or truncate the raw file that ValueWriter::get_file and possum_value_writer_fd lend it other than by writing that value',
          'storing an integer in SQLite and reading it back yields that integer (C29 covers the conversion of ids)']

WIDE = fslib.re.compile(r'^(std::option::Option<)?(u64|i64|u128|i128|usize|std::num::NonZero<u64>)>?$')
COLS = ('key', 'file_id', 'file_offset', 'value_length')

def unwrap_some(t):
    return t.a[2][0] if t.op == 'agg' and t.a[0].startswith('std::option::Option<') and t.a[1] == 1 else t

def is_none(t):
    return t.op == 'agg' and t.a[0].startswith('std::option::Option<') and t.a[1] == 0

def inserted(x):
    """the terms a statement inserts into keys, by column"""
    if x.k != 'insert' or x.s['table'] != 'keys' or not x.s.get('rows') or len(x.s['rows']) != 1 or not x.s['cols']:
        return None
    r = {}
    for c, v in zip(x.s['cols'], x.s['rows'][0]):
        r[c] = x.param(v[1]) if v[0] == 'param' else mk('agg', 'std::option::Option<lit>', 0, ()) if v == ('lit', None) else None
    return r

def roles(ctx):
    """which field of a staged write is bound to which column"""
    P = ctx.prog()
    fw = txlib.seq_field(P, 'BatchWriter', 'PendingWrite')
    got = {}
    def judge(tr, coll):
        for x in scan(tr).exs.values():
            r = inserted(x)
            for c in COLS:
                t = unwrap_some(r[c]) if r and r.get(c) is not None else None
                if t is not None and t.op == 'fld' and t.a[0].op == 'elem' and t.a[0].a[0].op == 'fld' and t.a[0].a[0].a[1] == fw:
                    got.setdefault(c, []).append(t.a[1])
    f = txlib.fnnamed(P, 'BatchWriter::commit', '<&')[0]
    check_.run_one(ctx, Job('roles', f, judge=judge, cfg=dict(K=2, elem_total=1, err_cap=0), prune=txlib.either(txlib.quiet_send, txlib.nolimit(P))), Coll('roles'))
    if set(got) != set(COLS):
        raise Missing('the fields of a staged write that a commit inserts as %s' % ', '.join(c for c in COLS if c not in got))
    return {c: max(set(v), key=v.count) for c, v in got.items()}

class Positions:
    """the position of every file along a path: a term while known, with the event it was seen by and whether something was written before"""
    def __init__(self):
        self.cur = {}
        self.wrote = {}
        self.log = {}          # file -> [(position term, number of writes before)]
    def step(self, e):
        if e.k == 'open' and e.outcome == 'ok':
            self.cur.pop(e.file, None)
        if e.k != 'fs' or 'file' not in e.d:
            return
        f = fslib.shared(e.file)
        if e.op in ('position', 'seek') and e.outcome == 'ok':
            p = e.ret
            self.cur[f] = p
            self.log.setdefault(f, []).append((p, self.wrote.get(f, 0)))
        elif e.op in ('write', 'copy', 'read') or e.op == 'seek':
            self.cur.pop(f, None)
            if e.op in ('write', 'copy'):
                self.wrote[f] = self.wrote.get(f, 0) + 1

def same_id(tr, path, id_, ef_inner):
    """a path made from the id it is opened under: join(dir, fmt('values-', hex of the id))"""
    x = id_
    if x.op == 'agg' and len(x.a[2]) == 1:
        x = x.a[2][0]
    if x.op == 'parsed':
        x = next((y.a[1] for y in subterms(x) if y.op == 'fa'), x)
    return any(y.op == 'fa' and y.a[1] is x for y in subterms(path))

class Shape:
    def __init__(self, P):
        self.ef = fslib.EF(P)
        self.efid = txlib.structf(P, 'ExclusiveFile')['id']
        self.vw = [t['n'] for t in P.T if t['k'] == 'adt' and t['n'].split('::')[-1] == 'ValueWriter'][0]
        self.vwef = txlib.field_of_type(P, 'ValueWriter', 'ExclusiveFile')
        o = [i for t in P.T if t['k'] == 'adt' and t['n'] == self.vw for i, f in enumerate(t['variants'][0]['f']) if P.T[f[1]]['n'] == 'u64']
        if len(o) != 1:
            raise Missing('the field of ValueWriter that says where its value begins')
        self.vwoff = o[0]
        self.pw = [t['n'] for t in P.T if t['k'] == 'adt' and t['n'].split('::')[-1] == 'PendingWrite'][0]

def fileof(sh, x):
    return x.a[2][sh.ef.file] if x.op == 'agg' and x.a[0] == sh.ef.tag else mk('fld', x, sh.ef.file)

def idof(sh, x):
    return x.a[2][sh.efid] if x.op == 'agg' and x.a[0] == sh.ef.tag else mk('fld', x, sh.efid)

def begun_at(tr, sh, pos, f, off, cloned, opened):
    """why off is not where the value written to f on this path began, or None"""
    fa = fslib.Facts(tr, fslib.nonneg)
    if f in opened and opened[f].path in cloned:
        return None if off is I(0) or fa.eq(off, I(0)) else 'a whole-file clone is recorded at %s' % show(off)[:60]
    l = pos.log.get(f)
    if not l:
        return 'the position of its file was not looked at'
    for p, w in l:
        if (p is off or fa.eq(p, off)) and w == 0:
            return None
    if any(p is off or fa.eq(p, off) for p, w in l):
        return 'the position was looked at after some of it was written'
    return 'it is recorded at %s, its file was at %s' % (show(off)[:60], show(l[0][0])[:60])

def judge_for(name, rl, want_key=None, src=None):
    def judge(tr, coll):
        P = tr.I.P
        sh = Shape(P)
        pos = Positions()
        opened, cloned = {}, set()
        S_ = scan(tr)
        staged = []
        lists = {}
        for e in reversed(tr.events):
            if e.k == 'push' and 'ExclusiveFile' in str(e.d.get('ty')):
                lists[idof(sh, e.v)] = e.v
        for i, e in enumerate(tr.events):
            if e.k == 'open' and e.outcome == 'ok':
                opened[e.file] = e
            if e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'ok' and fslib.fileof(e.fd) in opened:
                cloned.add(opened[fslib.fileof(e.fd)].path)
            if e.k == 'push' and e.v.op == 'agg' and e.v.a[0] == sh.pw:
                stage(tr, coll, name, sh, rl, pos, e, opened, cloned, lists, want_key)
                staged.append({c: e.v.a[2][n] for c, n in rl.items()})
            if e.k == 'push' and 'ExclusiveFile' in str(e.d.get('ty')):
                lists[idof(sh, e.v)] = e.v
            pos.step(e)
        # the value writer that is returned
        if tr.outcome == 'ret' and isinstance(tr.value, Term) and tr.value.op == 'agg':
            for x in set(subterms(tr.value)):
                if x.op == 'agg' and x.a[0] == sh.vw:
                    f = fileof(sh, x.a[2][sh.vwef])
                    why = begun_at(tr, sh, pos, f, x.a[2][sh.vwoff], cloned, opened)
                    if why:
                        coll.bad('%s:begin' % name, '%s: a value does not begin where its recorded offset says: %s' % (name, why), tr.events[-1], tr)
                    else:
                        coll.ok('begun', '%s: %s' % (name, show(x.a[2][sh.vwoff])[:60]))
        rows(tr, coll, name, sh, rl, S_, staged)
        if src is not None and tr.outcome == 'ret' and succeeded(tr):
            ws = [e for e in tr.events if e.k == 'fs' and e.op in ('copy', 'write', 'fswrite') and e.outcome == 'ok']
            if len(ws) != 1 or not from_src(tr, ws[0], src):
                coll.bad('%s:bytes' % name, '%s: the caller\'s bytes are not written exactly once (%d writes)' % (name, len(ws)), ws[0] if ws else None, tr)
            else:
                coll.ok('written', '%s: %s' % (name, show(ws[0].d.get('src') or ws[0].d.get('buf'))[:60]))
                if name in ('copy_from', 'Write') and okval(tr) is not ws[0].ret:
                    coll.bad('%s:count' % name, '%s: the reported count is not the number of bytes written' % name, ws[0], tr)
    return judge

def okval(tr):
    return vkind(tr.value)[1]

def from_src(tr, e, src):
    b = e.d.get('src') if e.op == 'copy' else e.d.get('buf')
    return b is not None and (b is src or src in set(subterms(b)))

def stage(tr, coll, name, sh, rl, pos, e, opened, cloned, lists, want_key):
    key, fid, off, ln = (e.v.a[2][rl[c]] for c in COLS)
    # the exclusive file with that id
    x = lists.get(fid)
    if x is None:
        coll.bad('%s:file' % name, '%s: a staged write names a file other than the one its value was written to: %s' % (name, show(fid)[:80]), e, tr)
        return
    f = fileof(sh, x)
    if x.op == 'fld' and x.a[1] == sh.vwef:
        if off is not mk('fld', x.a[0], sh.vwoff):
            coll.bad('%s:offset' % name, '%s: a staged write is recorded at %s, its value begins at %s' % (name, show(off)[:60], show(mk('fld', x.a[0], sh.vwoff))[:60]), e, tr)
            return
    else:
        why = begun_at(tr, sh, pos, f, off, cloned, opened)
        if why:
            coll.bad('%s:offset' % name, '%s: a staged write is not recorded where its value begins: %s' % (name, why), e, tr)
            return
    if want_key is not None and not want_key(tr, key):
        coll.bad('%s:key' % name, '%s: a value is staged for %s instead of the caller\'s key' % (name, show(key)[:60]), e, tr)
        return
    cur = pos.cur.get(f)
    if cur is None or not (ln is sub(cur, off) or fslib.Facts(tr, fslib.nonneg).eq(ln, sub(cur, off))):
        coll.bad('%s:length' % name, '%s: the length of a staged write, %s, is not what was written for it' % (name, show(ln)[:80]), e, tr)
        return
    coll.ok('staged', '%s: %s, %s' % (name, show(off)[:60], show(ln)[:60]))

def rows(tr, coll, name, sh, rl, S_, staged):
    for x in S_.exs.values():
        if x.e.op == 'prepare' or x.k != 'insert' or x.s['table'] != 'keys' or x.outcome == 'err':
            continue
        r = inserted(x)
        if r is None or any(r.get(c) is None for c in COLS):
            coll.bad('%s:insert' % name, '%s: an inserted row is not understood: %s' % (name, x.desc()), x.e, tr)
            continue
        cand = list(staged)
        es = {t.a[0] for p in x.params for t in subterms(p) if t.op == 'fld' and t.a[0].op == 'elem'}
        cand += [{c: mk('fld', el, n) for c, n in rl.items()} for el in es]
        def fits(c):
            if r['key'] is not c['key'] or r['value_length'] is not c['value_length']:
                return False
            z = tr.I.decide(tr.st, eq0(c['value_length']))
            if z is True:
                return is_none(r['file_id']) and is_none(r['file_offset']) and 'empty-row'
            return z is False and unwrap_some(r['file_id']) is c['file_id'] and unwrap_some(r['file_offset']) is c['file_offset'] and not is_none(r['file_id']) and 'row'
        k = next((k for k in map(fits, cand) if k), None)
        if not k:
            coll.bad('%s:row' % name, '%s: an inserted row does not hold the key, file, offset and length of one staged write (no location exactly when it is empty)' % name, x.e, tr)
        else:
            coll.ok(k, '%s: %s' % (name, x.desc()))

# ------------------------------------------------------------------ decoding

def decode_for(name, key=None):
    def judge(tr, coll):
        P = tr.I.P
        S_ = scan(tr)
        todo = [tr.value] if tr.outcome == 'ret' and isinstance(tr.value, Term) else []
        for e in tr.events:
            if e.k in ('push', 'minsert', 'sinsert', 'store', 'extend'):
                todo += [v for v in e.d.values() if isinstance(v, Term)]
        seen = set()
        for t in todo:
            for v in subterms(t, seen):
                if v.op == 'agg' and v.a[0].split('::')[-1] in ('Value', 'Item'):
                    value(tr, coll, name, P, S_, v, key)
    return judge

def value(tr, coll, name, P, S_, v, key):
    nm = v.a[0].split('::')[-1]
    if nm == 'Item':
        n = txlib.structf(P, 'Item')
        k, val = v.a[2][n['key']], v.a[2][n['value']]
        cols = [t for t in subterms(val) if t.op == 'col']
        kc = colref(k)
        x = S_.exs.get(kc[0]) if kc else None
        if not x or x.names[kc[2]:kc[2] + 1] != ['key'] or any(t.a[:2] != kc[:2] for t in cols):
            coll.bad('%s:item' % name, '%s: a listed item\'s value is not from the row of its key' % name, tr.events[-1], tr)
        else:
            coll.ok('of-key', '%s: %s' % (name, x.desc()))
        return
    lf = [a for a in v.a[2] if a.op == 'agg' and a.a[0].endswith('ValueLocation')]
    if not lf:
        return
    locn = lf[0]
    vn = variant_name(P, locn)
    if vn == 'ZeroLength':
        others = [t for a in v.a[2] if a is not locn for t in subterms(a) if t.op == 'col']
        rows_ = {t.a[:2] for t in others}
        for r in rows_:
            x = S_.exs.get(r[0])
            if x is not None and txlib.is_empty_row(tr, x, r[1]) is True:
                coll.ok('decoded-empty', '%s: %s' % (name, x.desc()))
                return
            if x is not None and x.k == 'update' and any(txlib.is_empty_row(tr, y, k) is True for y in S_.exs.values() for _, k in y.rows):
                coll.ok('decoded-empty', '%s: %s' % (name, x.desc()))
                return
        coll.bad('%s:decode-empty' % name, '%s: a value is reported empty although its length may not be zero' % name, tr.events[-1], tr)
        return
    nz = txlib.location(P, locn.a[2][0]) if locn.a[2] else None
    if nz is None:
        return
    refs = [colref(t) for t in nz]
    if not any(t.op == 'col' for z in nz for t in subterms(z)):
        return
    x = S_.exs.get(refs[0][0]) if refs[0] else None
    if None in refs or x is None or any(r[:2] != refs[0][:2] for r in refs) or [x.names[r[2]] if r[2] < len(x.names) else '' for r in refs] != ['file_id', 'file_offset', 'value_length']:
        coll.bad('%s:decode' % name, '%s: a location is not made from the columns file_id, file_offset and value_length of one row' % name, x.e if x else None, tr)
        return
    for z in nz[1:]:
        for t in subterms(z):
            if t.op == 'col' and not WIDE.match(t.a[3]):
                coll.bad('%s:narrow' % name, '%s: a column is decoded as %s, which can not hold every offset and length' % (name, t.a[3]), x.e, tr)
                return
    if txlib.is_empty_row(tr, x, refs[0][1]) is True:
        coll.bad('%s:decode-zero' % name, '%s: an empty value is given a location' % name, x.e, tr)
        return
    coll.ok('decoded', '%s: %s' % (name, x.desc()))
    if key is not None:
        w = x.where_param('key')
        if x.k == 'delete' or x.k == 'update' and x.s['table'] != 'keys':
            return
        if w is not key or not x.single_row():
            coll.bad('%s:of-key' % name, '%s: a value is looked up by %s' % (name, x.desc()), x.e, tr)
        else:
            coll.ok('of-key', '%s: %s' % (name, x.desc()))

def jobs(ctx):
    P = ctx.prog()
    rl = roles(ctx)
    small = dict(K=2, elem_total=1, err_cap=0)
    pr = [txlib.quiet_send, txlib.nolimit(P)]
    out = []
    def is_arg(n):
        return lambda tr, k: k is mk('arg', n) or same_bytes(tr, k, mk('arg', n))
    for g in find(P, 'BeginWriteValue::begin')[:2]:
        out.append(Job('begin', g, judge=judge_for('begin', rl), cfg=dict(small)))
    for g in find(P, 'BeginWriteValue::clone_file'):
        out.append(Job('clone_file', g, judge=judge_for('clone_file', rl, src=None), cfg=dict(small)))
    ss = find(P, 'BatchWriter::stage_write')
    if not ss:
        raise Missing('BatchWriter::stage_write')
    for g in ss:
        out.append(Job('stage_write', g, judge=judge_for('stage_write', rl, want_key=is_arg('key')), args=A('self', 'key', 'value')))
    for g in find(P, 'ValueWriter::copy_from'):
        out.append(Job('copy_from', g, judge=judge_for('copy_from', rl, src=mk('arg', 'value')), args=A('self', 'value')))
    for g in find(P, 'impl:Write:ValueWriter:write'):
        out.append(Job('Write', g, judge=judge_for('Write', rl, src=mk('deref', mk('arg', 'buf'))), args=A('self', 'buf')))
    for j in txlib.write_roots(P, reads=False, cfg=dict(K=2, elem_total=1), kinds=('commit', 'c-commit')):
        j.judge = judge_for(j.name, rl)
        j.prune = txlib.either(*([j.prune] if j.prune else []) + pr)
        out.append(j)
    for g in find(P, 'Handle::single_write_from')[:1]:
        out.append(Job('single_write_from', g, judge=judge_for('single_write_from', rl, want_key=is_arg('key'), src=mk('arg', 'r')), args=A('self', 'key', 'r'), cfg=dict(small), prune=txlib.either(txlib.fresh_file, *pr)))
    for g in find(P, 'Handle::clone_from_file')[:1]:
        out.append(Job('clone_from_file', g, judge=judge_for('clone_from_file', rl, want_key=is_arg('key')), args=A('self', 'key', 'file'), cfg=dict(small), prune=txlib.either(*pr)))
    key = mk('deref', mk('arg', 'key'))
    for n, g in enumerate(txlib.fnnamed(P, 'Reader::add')):
        out.append(Job('add', g, args=A('self', 'key'), judge=decode_for('add', key), cfg=dict(small)))
    for sel in ('Handle::list_items', 'Reader::list_items'):
        for g in txlib.fnnamed(P, sel)[:1]:
            out.append(Job(sel, g, judge=decode_for(sel), cfg=dict(K=2)))
    return out
