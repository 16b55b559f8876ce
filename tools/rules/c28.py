import re
from vlib.rulelib import *
from vlib import txlib, linear
from vlib.fslib import nonneg
from rules import c16
from rules.c26 import subterms

ID = 'C28'
RULE = '''
For a snapshot value at [offset, offset+length) of its file: on every path of read_at(position, buffer) and of read(buffer) (position 0),
also through possum_value_read_at and possum_single_read_at, the bytes are read from the file of the value's own snapshot, the k-th read
starts at offset+position plus what was read before, goes into the buffer after what was read before, and ends within the value and
the buffer; nothing is read, and 0 is returned, when the position is at or past the end or the value is empty, and something is read
otherwise unless the buffer is empty.  A read at the file's position happens under the same hold of the clone's lock as the seek before it.
The count returned (stored as the size of the C buffer) is the sum of what the reads returned.  view hands out exactly [offset,
offset+length) of a mapping of that file that starts at 0 (nothing for an empty value).  new_reader reads the value itself from position 0.
'''
FLOORS = {'read': 4, 'end': 2, 'count': 4, 'view': 1, 'view-empty': 1, 'c-size': 4, 'mapping': 1}
ASSUME = ['that the file holds the value\'s bytes at its offset is C01, C23 and C31', 'positioned_io::Cursor reads through read_at, advancing by what was read',
          'a value recorded as not empty has a length above zero (C09, C14: rows of length zero are read as empty)',
          '64-bit sums of offsets and lengths do not overflow']

class Value_:
    """where a snapshot value's bytes are, on one path"""
    def __init__(self, tr, sv):
        P = tr.I.P
        S_ = txlib.structf(P, 'SnapshotValue')
        V_ = txlib.structf(P, 'Value')
        self.cf = fld(sv, [i for n, i in S_.items() if n != 'value'][0]) if len(S_) == 2 else None
        cands = [fld(sv, S_['value'])]
        for f in tr.facts:
            for t in subterms(f):
                if t.op == 'asref' and t.a[0].op == 'ref' and any(tr_is(t.a[0], sv, S_['value'])):
                    cands.append(mk('deref', t))
        nz = [i for i, v in enumerate(enum(P, 'ValueLocation')['variants']) if v['n'] == 'Nonzero'][0]
        n = txlib.structf(P, 'NonzeroValueLocation')
        self.zero = None
        self.off = self.len = None
        for c in cands:
            l = fld(c, V_['location'])
            v = tr.facts.get(mk('discr', l))
            if v is None:
                continue
            self.zero = v != nz if isinstance(v, int) else nz in v
            if not self.zero:
                x = fld(models.as_(l, nz) if hasattr(models, 'as_') else mk('as', l, nz), 0)
                self.off, self.len = fld(x, n['file_offset']), fld(x, n['length'])

def tr_is(r, sv, vf):
    """r points to the value field of the snapshot value sv"""
    loc, pr = r.a[0], r.a[1]
    yield loc.op == 'O' and mk('deref', loc.a[0]) is sv and len(pr) == 1 and pr[0][0] == 'f' and pr[0][1] == vf

def span_of(buf):
    """(what it is a part of, start, end or None)"""
    if buf.op == 'ref':
        pr = buf.a[1]
        subs_ = [p for p in pr if p[0] == 'sub']
        if not subs_:
            return I(0), None
        st = I(0)
        for p in subs_:
            st = add(st, p[1])
        return st, None
    return None, None

def enum(P, n):
    for t in P.T:
        if t['k'] == 'adt' and t['kind'] == 'enum' and t['n'].split('::')[-1] == n:
            return t
    raise Missing('enum ' + n)

def reads(tr, coll, name, val, pos, buflen, file_ok):
    """judges the reads of one path; the sum of what they returned"""
    F = linear.Facts(tr, nonneg, extra=([pos] if pos.op != 'int' else []) + ([add(val.len, I(-1))] if val.zero is False else []))
    total = I(0)
    n = 0
    relocked = True
    for e in tr.events:
        if e.k in ('unlock', 'lock'):
            relocked = True
        if e.k != 'fs' or e.op not in ('seek', 'read', 'read_at') or not file_ok(e.file):
            if e.k == 'fs' and e.op in ('read', 'read_at', 'copy'):
                coll.bad('%s:file' % name, '%s: reads from a file that is not the one of the value\'s snapshot' % name, e, tr)
                return None
            continue
        if e.op == 'seek':
            relocked = False
            continue
        if e.op == 'read' and relocked:
            coll.bad('%s:seek' % name, '%s: reads at a position that another read of the same file can have moved' % name, e, tr)
            return None
        if val.zero is not False:
            coll.bad('%s:empty' % name, '%s: reads from a file for an empty value' % name, e, tr)
            return None
        want = add(val.off, add(pos, total))
        if not F.eq(e.pos, want):
            coll.bad('%s:position' % name, '%s: reads at %s instead of the requested position of the value' % (name, show(e.pos)[:100]), e, tr)
            return None
        bs, _ = span_of(e.buf)
        if bs is None or not F.eq(bs, total):
            coll.bad('%s:buffer' % name, '%s: what is read is not put where the caller expects it' % name, e, tr)
            return None
        end = add(add(pos, total), e.blen)
        if e.blen.op == 'unbounded' or not F.entails(add(val.len, neg(end))):
            coll.bad('%s:beyond' % name, '%s: can read past the end of the value' % name, e, tr)
            return None
        if buflen is not None and not F.entails(add(buflen, neg(add(total, e.blen)))):
            coll.bad('%s:overrun' % name, '%s: can read more than the buffer holds' % name, e, tr)
            return None
        if n == 0 and not (buflen is not None and F.eq(e.blen, buflen)) and not F.entails(add(e.blen, I(-1))):
            coll.bad('%s:nothing' % name, '%s: can read nothing although there are bytes left' % name, e, tr)
            return None
        coll.ok('read', name)
        n += 1
        if e.outcome == 'ok':
            total = add(total, e.blen if 'exact' in e.how else e.ret)
    if n == 0 and not failed(tr):
        if val.zero is not True and not (buflen is not None and F.eq(buflen, I(0))):
            if val.zero is None or not F.entails(add(pos, neg(val.len))):
                coll.bad('%s:skipped' % name, '%s: reads nothing although the position may be within the value' % name, None, tr)
                return None
        coll.ok('end', name)
    return total

def counted(tr, coll, name, got, total):
    F = linear.Facts(tr, nonneg)
    if got is None or not (got is total or F.eq(got, total)):
        coll.bad('%s:count' % name, '%s: returns %s, which is not the number of bytes read' % (name, show(got)[:60] if got is not None else 'nothing'), None, tr)
        return False
    coll.ok('count', name)
    return True

def own_file(val):
    def ok_(f):
        return val.cf is not None and any(t is val.cf for t in subterms(f))
    return ok_

def argterm(f, i):
    n = c16.argname(f, i)
    return mk('arg', n if n else 'a%d' % (i + 1))

def failed(tr):
    return any(e.k == 'fs' and e.outcome == 'err' for e in tr.events)

def judge_read(name, f, positioned):
    def judge(tr, coll):
        if tr.outcome != 'ret':
            return
        P = tr.I.P
        val = Value_(tr, mk('deref', argterm(f, 0)))
        pos = argterm(f, 1) if positioned else I(0)
        buf = argterm(f, 2 if positioned else 1)
        total = reads(tr, coll, name, val, pos, mk('len', mk('deref', buf)), own_file(val))
        if total is None or txlib.succeeded(tr) is False:
            return
        counted(tr, coll, name, tr.value.a[2][0] if tr.value.op == 'agg' and tr.value.a[2] else None, total)
    return judge

def judge_view(name, f):
    def judge(tr, coll):
        if tr.outcome != 'ret':
            return
        val = Value_(tr, mk('deref', argterm(f, 0)))
        F = linear.Facts(tr, nonneg)
        maps(tr, coll, name, own_file(val))
        for e in tr.events:
            if e.k != 'callopaque' or e.f is not argterm(f, 1):
                continue
            v = tr.I.resolve(tr.st, e.args[0]) if e.args else None
            if val.zero:
                if v is not None and (v.op in ('arr', 'vec') and not v.a[0] or v.op == 'sub' and F.eq(v.a[1], v.a[2])):
                    coll.ok('view-empty', name)
                else:
                    coll.bad('%s:view-empty' % name, '%s: hands out bytes for an empty value' % name, e, tr)
                continue
            if v is None or v.op != 'sub' or val.zero is None or not F.eq(v.a[1], val.off) or not F.eq(v.a[2], add(val.off, val.len)):
                coll.bad('%s:view' % name, '%s: hands out %s, which is not exactly the value' % (name, show(v)[:100] if v is not None else 'nothing'), e, tr)
                continue
            m = v.a[0]
            if m.op == 'mmap' and own_file(val)(m.a[0]) or m.op != 'mmap' and own_file(val)(m):
                coll.ok('view', name)
            else:
                coll.bad('%s:view-file' % name, '%s: hands out bytes of something that is not the file of the value\'s snapshot' % name, e, tr)
    return judge

def maps(tr, coll, name, file_ok):
    for e in tr.events:
        if e.k == 'fs' and e.op == 'mmap' and e.outcome == 'ok':
            if e.ret.a[1] is I(0) and file_ok(e.file):
                coll.ok('mapping', name)
            else:
                coll.bad('%s:mapping' % name, '%s: a mapping of a clone does not start at the start of its file' % name, e, tr)

def c_size(tr, coll, name, f, i, total):
    P = tr.I.P
    a = argterm(f, i)
    st_ = [e for e in tr.events if e.k == 'store' and c16.rooted(e.d['loc'], a)]
    if not st_ or not (st_[-1].v is total or linear.Facts(tr, nonneg).eq(st_[-1].v, total)):
        coll.bad('%s:size' % name, '%s: the size stored for C is not the number of bytes read' % name, st_[-1] if st_ else None, tr)
    else:
        coll.ok('c-size', name)

def cbuf(P, a):
    return fld(mk('deref', a), 1)

def judge_c(name, f):
    def judge(tr, coll):
        if tr.outcome != 'ret':
            return
        P = tr.I.P
        sv = [i for i, v in enumerate(enum(P, 'PossumValue')['variants']) if v['n'] == 'SnapshotValue'][0]
        val = Value_(tr, fld(mk('as', mk('deref', argterm(f, 0)), sv), 0))
        total = reads(tr, coll, name, val, argterm(f, 2), cbuf(P, argterm(f, 1)), own_file(val))
        if total is not None and c16.status(tr, f)[0]:
            c_size(tr, coll, name, f, 1, total)
    return judge

def judge_single(name, f):
    def judge(tr, coll):
        if tr.outcome != 'ret' or failed(tr):
            return
        P = tr.I.P
        if not c16.status(tr, f)[0]:
            return
        ex = [e for e in txlib.scan(tr).exs.values() if e.outcome == 'row' and e.where_param('key') is not None and e.where_param('key') is not False]
        if not ex:
            return
        x = ex[0]
        names = x.names
        val = type('V', (), {})()
        cols = {n.split('.')[-1]: i for i, n in enumerate(names or ()) if n}
        if not {'file_offset', 'value_length'} <= set(cols):
            coll.bad('%s:columns' % name, '%s: does not look up where the value is' % name, x.e, tr)
            return
        want = {}
        for t in set(subterms(tuple(tr.facts))) | {y for e in tr.events if e.k == 'fs' for y in subterms(tuple(v for v in e.d.values() if isinstance(v, Term)))}:
            if t.op == 'col' and t.a[0] == x.id:
                for n, i in cols.items():
                    if t.a[2] == i:
                        want[n] = t
        ln = want.get('value_length')
        off = want.get('file_offset')
        val.zero = None
        if ln is not None:
            z = tr.I.decide(tr.st, eq0(ln))
            val.zero = z
        val.len = ln
        if off is not None:
            val.off = fld(mk('as', off, 1), 0) if 'Option' in off.a[3] else off
        total = reads(tr_after(tr), coll, name, val, argterm(f, 3), cbuf(P, argterm(f, 2)), lambda fl: True)
        if total is not None:
            c_size(tr, coll, name, f, 2, total)
    return judge

class tr_after:
    """the part of a path after the snapshot was taken"""
    def __init__(self, tr):
        self.__dict__.update({k: getattr(tr, k) for k in ('facts', 'I', 'st', 'outcome')})
        last = max([i for i, e in enumerate(tr.events) if e.k == 'commit'] + [-1])
        self.events = [e for i, e in enumerate(tr.events) if i > last]
        self._tr = tr
    def __getattr__(self, n):
        return getattr(self._tr, n)

def judge_reader(name, f):
    def judge(tr, coll):
        if tr.outcome != 'ret' or tr.value.op != 'cursor':
            return
        if tr.value.a[0] is not argterm(f, 0) or len(tr.value.a) > 1 and tr.value.a[1] is not I(0):
            coll.bad('%s:start' % name, '%s: does not read the value from its start' % name, None, tr)
        else:
            coll.ok('reader', name)
    return judge

def judge_map(name, f):
    def judge(tr, coll):
        maps(tr, coll, name, lambda x: any(t is mk('deref', argterm(f, 0)) for t in subterms(x)))
    return judge

def jobs(ctx):
    P = ctx.prog()
    out = []
    def each(sel, mkjudge, least=1):
        fs = [f for f in find(P, sel) if not re.search(r'\{closure#\d+\}$', f['name'])]
        if len(fs) < least:
            raise Missing(sel)
        for f in fs:
            nm = sel.split('::')[-1] if ':' in sel else sel
            out.append(Job(nm, f, judge=mkjudge(nm, f)))
    ra = [f for f in P.F if 'blocks' in f and re.search(r'SnapshotValue<.*> as positioned_io::ReadAt>::read_at$', f['name'])]
    if not ra:
        raise Missing('SnapshotValue as ReadAt')
    for f in ra:
        out.append(Job('read_at', f, judge=judge_read('read_at', f, True)))
    each('SnapshotValue::read', lambda n, f: judge_read(n, f, False))
    each('SnapshotValue::view', judge_view)
    each('SnapshotValue::new_reader', judge_reader, 0)
    for f in find(P, 'FileClone::get_mmap'):
        out.append(Job('get_mmap', f, judge=judge_map('get_mmap', f)))
    f = need(P, 'ext:possum_value_read_at')
    out.append(Job('possum_value_read_at', f, judge=judge_c('possum_value_read_at', f)))
    f = need(P, 'ext:possum_single_read_at')
    out.append(Job('possum_single_read_at', f, judge=judge_single('possum_single_read_at', f), cfg=dict(K=2, elem_total=1, err_cap=0), prune=txlib.either(txlib.quiet_send, txlib.nolimit(P))))
    return out
