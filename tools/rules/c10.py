from vlib.rulelib import *
from vlib import txlib, fslib
from rules.c02 import valuesish

ID = 'C10'
RULE = '''
On every path of every operation that makes, keeps or uses a writer's file: (1) an exclusive file is only made around a
file that this path opened for appending and not for truncating, after an exclusive lock on it from the recorded append
position to infinity was granted, and after the end of the file, looked at under that lock, was found to be that position
and the file was positioned there; (2) every write and copy into a values file happens while the file holds an exclusive
lock from at most its append position to infinity; (3) what is put into the pool of reusable files is still locked that
way; (4) nothing is ever written through a second handle to the file of a writer; (5) a value writer only gets the file that
holds a batch's earlier values if a second handle to it, which shares its locks, stays in the batch, and such a handle is only given up, while the batch is
being staged, when that same file goes back into the batch.  Every function of the crate that makes an exclusive file or writes to a
file is reached by one of the analysed operations.
'''
FLOORS = {'made': 6, 'write': 4, 'pooled': 2, 'appending': 6, 'held': 1}
ASSUME = ['a file opened for appending writes at its end, and its position is moved to the end of what it wrote (POSIX)',
          'the caller does not write to the raw file that ValueWriter::get_file and possum_value_writer_fd lend it other than as that writer',
          'an exclusive file that comes from the pool or from the writer holds its lock, because it did when it was put there']

def writes(e):
    return e.k == 'fs' and e.op in ('write', 'copy', 'fswrite')

def judge_for(name):
    def judge(tr, coll):
        P = tr.I.P
        ef = fslib.EF(P)
        fs = fslib.FileState(tr, ef.init)
        ours = set()                # files made into exclusive files on this path
        posn = {}
        seen = {}                   # file -> [(event index, length the end was found at)]
        for i, e in enumerate(tr.events):
            if e.k == 'fs' and e.d.get('outcome') == 'ok' and 'file' in e.d and e.op in ('seek', 'len', 'position') and isinstance(e.ret, Term):
                if e.op != 'position':
                    seen.setdefault(e.file, []).append((i, e.ret))
                if e.op == 'seek':
                    posn[e.file] = e.ret
            if writes(e):
                f = e.file
                p = fs.path.get(f)
                if is_ef_file(ef, f) or f in ours or p is not None and values_name(p):
                    need_lock(tr, coll, name, fs, ef, f, e)
                elif fslib.shared(f) is not f:
                    coll.bad('%s:dup' % name, '%s: the file of a writer is written through a second handle, which can be done after its lock was given up' % name, e, tr)
            if e.k in ('minsert', 'push', 'mremove', 'send', 'store'):
                for v in e.d.values():
                    if isinstance(v, Term):
                        made(tr, coll, name, fs, ef, v, e, ours, posn, seen, i)
                if e.k == 'minsert' and is_pool(P, e):
                    pooled(tr, coll, name, fs, ef, e)
            fs.step(i, e)
        if tr.outcome == 'ret' and isinstance(tr.value, Term) and tr.events:
            made(tr, coll, name, fs, ef, tr.value, tr.events[-1], ours, posn, seen, len(tr.events))
            held(tr, coll, name, fs, ef)
        if name in STAGING:
            let_go(tr, coll, name, ef)
    return judge

STAGING = ('clone_file', 'begin', 'copy_from', 'stage_write')

def held(tr, coll, name, fs, ef):
    """files that leave the batch's list in the returned value"""
    for x in set(subterms(tr.value)):
        if not (x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == ef.kept):
            continue
        f = mk('fld', x, ef.file)
        for e in tr.events:
            if e.k == 'push' and e.seq.op == 'ref' and not str(e.seq.a[0]).startswith('L(') and any(y.op == 'dupfile' and fslib.shared(y) is f for y in subterms(e.v)):
                coll.ok('held', '%s: %s' % (name, show(f)[:60]))
                break
        else:
            p = tr.st.x.get(('pos', f))
            if p is not None and fs.facts.entails(sub(mk('fld', x, ef.lco), p)):
                coll.ok('held', '%s: nothing staged in it' % name)
                continue
            coll.bad('%s:not-held' % name, '%s: a value writer takes the file that earlier values of the batch are staged in, so that they lose their lock when it is dropped' % name, tr.events[-1], tr)

def hold_fields(P):
    """the lists of a batch that hold second handles to files of staged values"""
    out = set()
    for t in P.T:
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['n'].split('<')[0].split('::')[-1] == 'BatchWriter':
            for i, f in enumerate(t['variants'][0]['f']):
                u = P.T[f[1]]
                if u['k'] == 'adt' and u['path'].split('::')[-1] in ('Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
                    for x in u['targs']:
                        e = P.T[x]
                        if e['k'] == 'adt' and e['kind'] == 'struct' and 'ExclusiveFile' not in e['n'] and any(P.T[g[1]].get('n') == 'std::fs::File' for g in e['variants'][0]['f']):
                            out.add(i)
    return out

def from_holds(x, hf):
    return any(y.op == 'fld' and y.a[1] in hf and y.a[0].op in ('deref', 'arg') for y in subterms(x))

def let_go(tr, coll, name, ef):
    """while a batch is being staged, second handles are only given up when their file is back in the batch"""
    hf = hold_fields(tr.I.P)
    back = [e.v for e in tr.events if e.k == 'push' and e.seq.op == 'ref' and any(p[0] == 'f' and p[1] == ef.kept for p in e.seq.a[1])]
    same = [set(subterms(t)) for t, v in tr.facts.items() if isinstance(t, Term) and t.op == 'eq0' and v is True]
    for e in tr.events:
        if e.k == 'close' and isinstance(e.file, Term) and e.file.op == 'fld' and from_holds(e.file, hf):
            h = e.file.a[0]
            if any(h in s and any(y in s for v in back for y in subterms(v) if y.op != 'int') for s in same):
                coll.ok('let-go', '%s: %s' % (name, show(h)[:60]))
            else:
                coll.bad('%s:let-go' % name, '%s: gives up the handle that keeps staged values locked, though their file is not known to be back in the batch' % name, e, tr)
        elif e.k in ('dropseq', 'dropmap') and isinstance(e.v, Term) and from_holds(e.v, hf):
            coll.bad('%s:let-go' % name, '%s: gives up the handles that keep staged values locked before the batch is committed' % name, e, tr)
        elif e.k == 'truncate' and not e.whole and isinstance(e.before, Term) and from_holds(e.before, hf):
            coll.bad('%s:let-go' % name, '%s: gives up the handles that keep staged values locked before the batch is committed' % name, e, tr)

def is_ef_file(ef, f):
    return f.op == 'fld' and f.a[1] == ef.file and (f.a[0].op == 'fld' and f.a[0].a[1] in ef.holders or ef.from_map(f.a[0]) or
                                                   f.a[0].op == 'elem' and f.a[0].a[0].op == 'fld' and f.a[0].a[0].a[1] == ef.kept)

def values_name(p):
    return p.op == 'join' and fslib.prefix_of(p.a[1])[:7] == b'values-'

def is_pool(P, e):
    return 'ExclusiveFile' in str(e.d.get('ty')) and not str(e.d['loc']).startswith('L(')

def need_lock(tr, coll, name, fs, ef, f, e):
    ws = [l for l in fs.locks(f) if l.typ == fslib.WR and l.length is I(0)]
    o = fs.opened.get(f)
    if o is not None and 'append' not in o.flags:
        coll.bad('%s:not-appending' % name, '%s: a values file is written through a file that was not opened for appending' % name, e, tr)
    if not ws:
        coll.bad('%s:write' % name, '%s: a values file is written without an exclusive lock to infinity on it' % name, e, tr)
    else:
        coll.ok('write', '%s: write under the lock from %s' % (name, show(ws[0].start)[:80]))

def made(tr, coll, name, fs, ef, v, e, ours, posn, seen, i):
    """exclusive files made on this path"""
    for x in subterms(v):
        if not (x.op == 'agg' and x.a[0] == ef.tag):
            continue
        f, o = x.a[2][ef.file], x.a[2][ef.lco]
        if f in ours:
            continue
        if f not in fs.opened:
            if is_ef_file(ef, f):
                continue          # one that came from elsewhere, with a new last committed offset
            coll.bad('%s:other-file' % name, '%s: an exclusive file is made around a file that was not opened here: %s' % (name, show(f)[:80]), e, tr)
            continue
        ours.add(f)
        fl = fs.opened[f].flags
        if 'append' not in fl or 'truncate' in fl:
            coll.bad('%s:flags' % name, '%s: an exclusive file is opened %s' % (name, ', '.join(fl)), fs.opened[f], tr)
        else:
            coll.ok('appending', '%s: %s' % (name, ', '.join(fl)))
        l = fs.covers(f, o)
        if l is None:
            coll.bad('%s:unlocked' % name, '%s: an exclusive file is made without an exclusive lock from its append position to infinity' % name, e, tr)
            continue
        ends = [r for j, r in seen.get(f, ()) if j > l.i and r.op != 'int']
        if not any(r is o or fs.facts.eq(r, o) for r in ends):
            coll.bad('%s:stale-end' % name, '%s: the append position was not found, under the lock, to be the end of the file; someone may have appended in between' % name, e, tr)
            continue
        if f not in posn or not (posn[f] is o or fs.facts.eq(posn[f], o)):
            coll.bad('%s:position' % name, '%s: the file is not positioned where its lock begins' % name, e, tr)
            continue
        coll.ok('made', '%s: locked from the end of the file, seen under the lock' % name)

def pooled(tr, coll, name, fs, ef, e):
    v = e.v
    if v.op == 'agg' and v.a[0] == ef.tag:
        f, o = v.a[2][ef.file], v.a[2][ef.lco]
    else:
        f, o = mk('fld', v, ef.file), mk('fld', v, ef.lco)
        if v.op == 'fld' and v.a[1] not in ef.holders:
            pass
    l = fs.covers(f, o)
    if l is not None and l.start is not o and not fs.facts.eq(l.start, o):
        coll.bad('%s:recorded' % name, '%s: a file goes back to the pool with a last committed offset other than where its lock begins, so that what is unlocked on the next commit is not what is committed' % name, e, tr)
    elif l is None:
        if fs.held.get(f) is None and not is_ef_file(ef, f):
            coll.opaque['pooled'] += 1
            return
        coll.bad('%s:pooled' % name, '%s: a file goes back to the pool without an exclusive lock from its last committed offset to infinity' % name, e, tr)
    else:
        coll.ok('pooled', '%s: %s' % (name, show(f)[:60]))

def jobs(ctx):
    P = ctx.prog()
    out = []
    for n, s in (('ExclusiveFile::new', 'ExclusiveFile::new'), ('ExclusiveFile::open', 'ExclusiveFile::open'), ('get_exclusive_file', 'Handle::get_exclusive_file')):
        fs_ = find(P, s)
        if not fs_ and s.startswith('Exclusive'):
            continue
        if not fs_:
            raise Missing(s)
        out.append(Job(n, fs_[0], judge=judge_for(n), cfg=dict(K=2, elem_total=1)))
    out += txlib.write_roots(P, judge=judge_for('write'), reads=False, cfg=dict(K=2, elem_total=1), kinds=('commit', 'single-write'))
    for j in out:
        j.prune = txlib.either(*[p for p in (j.prune, txlib.quiet_send, txlib.nolimit(P)) if p])
    for n, s, kw in (('clone_file', 'BeginWriteValue::clone_file', dict(cfg=dict(K=2, elem_total=1, err_cap=0))),
                 ('begin', 'BeginWriteValue::begin', dict(cfg=dict(K=2, elem_total=1, err_cap=0))),
                 ('copy_from', 'ValueWriter::copy_from', {}), ('stage_write', 'BatchWriter::stage_write', {})):
        for g in find(P, s)[:2]:
            out.append(Job(n, g, judge=judge_for(n), **kw))
    for g in find(P, 'impl:Write:ValueWriter:write') + find(P, 'impl:Write:ValueWriter:write_all'):
        out.append(Job('ValueWriter ' + g['name'].split('::')[-1], g, judge=judge_for('Write'), args=None))
    for n in ('ext:possum_single_write_buf', 'ext:possum_start_writing', 'ext:possum_stage_write', 'ext:possum_writer_commit'):
        for g in find(P, n):
            out.append(Job(n[4:], g, judge=judge_for('C write'), cfg=dict(K=2, elem_total=1, err_cap=0), prune=txlib.either(txlib.fresh_file, txlib.quiet_send, txlib.nolimit(P)) if 'single' in n else txlib.either(txlib.quiet_send, txlib.nolimit(P))))
    return out

WRITES = fslib.re.compile(r'(^|::)(Write::write\w*|FileExt::write\w*|WriteAt::write\w*|io::copy|fs::write|fs::copy|(libc|nix)::(\w+::)*(pwrite(64|v)?|writev?|copy_file_range|sendfile(64)?))$')

def finish(ctx, res):
    P = ctx.prog('lib')
    ef = fslib.EF(P)
    ids = {i for i, t in enumerate(P.T) if t['n'] == ef.tag}
    def mentions(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == 'adt' and x[1] in ids:
                return True
            return any(mentions(y) for y in x if isinstance(y, (list, dict)))
        return any(mentions(y) for y in x.values() if isinstance(y, (list, dict)))
    for f in P.F:
        if 'blocks' in f and P.local(f) and f['path'] not in res.fns and mentions(f['blocks']):
            k = 'unexplored:' + f['path']
            res.bad.setdefault(k, dict(key=k, msg='%s makes an exclusive file and is not reached from any of the analysed operations' % f['path'], root='crate',
                                       where='%s:%s' % (f['sp'][0], f['sp'][1]), fn=f['path'], chain=None, path=None))
    for p, (f, m_) in fslib.direct_callers(P, WRITES).items():
        if p in res.fns or '::fmt' in p or takes_no_file(P, f):
            continue
        k = 'unexplored:' + p
        res.bad.setdefault(k, dict(key=k, msg='%s uses %s and is not reached from any of the analysed operations' % (p, ', '.join(m_)), root='crate',
                                   where='%s:%s' % (f['sp'][0], f['sp'][1]), fn=p, chain=None, path=None))

def takes_no_file(P, f):
    """no local of the function is a file or a writer"""
    return not any(('fs::File' in P.T[l]['n'] or 'ExclusiveFile' in P.T[l]['n'] or 'ValueWriter' in P.T[l]['n']) for l in locals_of(f) if isinstance(l, int) and l >= 0)

def locals_of(f):
    for l in f.get('locals', ()):
        yield l if isinstance(l, int) else l.get('t', l.get('ty', -1)) if isinstance(l, dict) else l[0]
