from vlib.rulelib import *
from vlib import txlib, fslib
from rules import c09, c10

ID = 'C25'
RULE = '''
On every path of every operation that copies into a value: if it reports failure after something may have been copied to a
writer's file (the copy or a write of it failed, or one succeeded and a later step failed), then by its end the file was
positioned at and truncated to the place it was at when the copying began, with nothing written to it later, or it was closed;
it may only panic instead when taking the bytes back failed itself.  On every path on which a writer's file failed to be
positioned, truncated or asked for its position, that file is neither put back into the batch nor into the pool afterwards.
'''
FLOORS = {'undone': 2, 'dropped': 2, 'untrusted': 4}
ASSUME = ['Write::write of a file that reports an error wrote nothing (POSIX)', 'a value writer that is dropped without being staged is not referred to by any row']

WR = ('write', 'copy', 'fswrite')

def judge_for(name, copies=True):
    def judge(tr, coll):
        P = tr.I.P
        ef = fslib.EF(P)
        fs = fslib.FileState(tr, ef.init)
        pos = c09.Positions()
        begun = {}            # file -> (index, position before the first write)
        failed = {}           # file -> event that failed on it
        undo = {}
        revert_failed = False
        for i, e in enumerate(tr.events):
            f = fslib.shared(e.file) if e.k == 'fs' and isinstance(e.d.get('file'), Term) else None
            ours = f is not None and (c10.is_ef_file(ef, f) or f in fs.opened and c10.values_name(fs.path[f]))
            if ours and e.op in WR:
                if f not in begun:
                    begun[f] = (i, pos.cur.get(f), e)
                undo.pop(f, None)
            if ours and e.op in ('seek', 'position', 'set_len', 'len'):
                if e.outcome == 'err':
                    failed.setdefault(f, e)
                    if f in begun:
                        revert_failed = True
                elif f in begun and begun[f][1] is not None:
                    p = begun[f][1]
                    if e.op == 'set_len' and same(fs, e.d['n'], p):
                        undo.setdefault(f, set()).add('len')
                    if e.op == 'seek':
                        if same(fs, e.ret, p):
                            undo.setdefault(f, set()).add('pos')
                        else:
                            undo.get(f, set()).discard('pos')
            if e.k in ('push', 'minsert'):
                kept(tr, coll, name, ef, e, failed)
            pos.step(e)
            fs.step(i, e)
        if not copies or not begun:
            return
        if tr.outcome == 'panic':
            if impossible(tr, ef, begun):
                return
            for f, (i, p, e) in begun.items():
                if failed_after(tr, i) and not revert_failed and reports(tr, i):
                    coll.bad('%s:panic' % name, '%s: panics after a failed copy, instead of taking back what was copied' % name, e, tr)
            return
        if tr.outcome != 'ret' or txlib.succeeded(tr) is not False:
            return
        for f, (i, p, e) in begun.items():
            if not failed_after(tr, i, staged_at(tr, ef, f, i)):
                continue
            if undo.get(f) == {'len', 'pos'}:
                coll.ok('undone', '%s: back to %s' % (name, show(p)[:60]))
            elif f in fs.closed and f not in restored(tr, ef, i):
                coll.ok('dropped', '%s: closes %s' % (name, show(f)[:60]))
            else:
                coll.bad('%s:left' % name, '%s: fails and leaves what was copied in the file (%s)' % (name, 'not truncated to where it began' if 'len' not in undo.get(f, ()) else 'not positioned where it began'), e, tr)
    return judge

def same(fs, a, b):
    return a is b or fs.facts.eq(a, b)

def failed_after(tr, i, end=None):
    """something in this operation's copying failed: a storage call or the source"""
    return any(e.d.get('outcome') == 'err' and e.k in ('fs', 'sys', 'open') for e in tr.events[i:end])

def staged_at(tr, ef, f, i):
    """where the copied value was complete: its file was put into a batch"""
    for j in range(i, len(tr.events)):
        e = tr.events[j]
        if e.k == 'push' and isinstance(e.d.get('v'), Term) and 'ExclusiveFile' in str(e.d.get('ty')):
            if (e.v.a[2][ef.file] if e.v.op == 'agg' and e.v.a[0] == ef.tag else mk('fld', e.v, ef.file)) is f:
                return j
    return None

def impossible(tr, ef, begun):
    """the path supposes that a file is positioned before its last committed offset, which C10 excludes"""
    fa = fslib.Facts(tr, fslib.nonneg)
    for f, (i, p, e) in begun.items():
        if p is not None and f.op == 'fld' and f.a[1] == ef.file:
            if fa.entails(add(sub(mk('fld', f.a[0], ef.lco), p), I(-1))):
                return True
    return False

def reports(tr, i):
    """the first failure after i is of the copying itself"""
    for e in tr.events[i:]:
        if e.d.get('outcome') == 'err':
            return e.k == 'fs' and e.op in WR + ('read',)
    return False

def restored(tr, ef, i):
    """files that went back into a list or the pool after event i"""
    out = set()
    for e in tr.events[i:]:
        if e.k in ('push', 'minsert') and isinstance(e.d.get('v'), Term):
            x = e.v
            if x.op == 'agg' and x.a[0] == ef.tag:
                out.add(x.a[2][ef.file])
            elif 'ExclusiveFile' in str(e.d.get('ty')):
                out.add(mk('fld', x, ef.file))
    return out

def kept(tr, coll, name, ef, e, failed):
    if 'ExclusiveFile' not in str(e.d.get('ty')):
        return
    x = e.v
    f = x.a[2][ef.file] if x.op == 'agg' and x.a[0] == ef.tag else mk('fld', x, ef.file)
    if f in failed:
        coll.bad('%s:reused' % name, '%s: a file that could not be %s goes back to be written again' % (name, {'position': 'asked for its position', 'set_len': 'truncated'}.get(failed[f].op, 'positioned')), e, tr)
    else:
        coll.ok('untrusted', '%s: %s' % (name, show(f)[:60]))

def jobs(ctx):
    P = ctx.prog()
    pr = [txlib.quiet_send, txlib.nolimit(P)]
    two = dict(K=2, elem_total=1)
    out = []
    cf = find(P, 'ValueWriter::copy_from')
    if not cf:
        raise Missing('ValueWriter::copy_from')
    for g in cf:
        out.append(Job('copy_from', g, judge=judge_for('copy_from'), maxfail=2))
    ss = find(P, 'BatchWriter::stage_write')
    for g in ss:
        out.append(Job('stage_write', g, judge=judge_for('stage_write', False), maxfail=2))
    for g in find(P, 'BeginWriteValue::begin')[:2]:
        out.append(Job('begin', g, judge=judge_for('begin', False), cfg=two))
    for g in find(P, 'BeginWriteValue::clone_file')[:1]:
        out.append(Job('clone_file', g, judge=judge_for('clone_file'), cfg=two))
    for n in ('Handle::single_write_from', 'Handle::clone_from_file'):
        for g in find(P, n)[:1]:
            out.append(Job(n, g, judge=judge_for(n), cfg=two, prune=txlib.either(until_copied, txlib.fresh_file, *pr)))
    for g in find(P, 'ext:possum_single_write_buf')[:1]:
        out.append(Job('possum_single_write_buf', g, judge=judge_for('possum_single_write_buf'), cfg=two, prune=txlib.either(until_copied, txlib.fresh_file, *pr)))
    for j in txlib.write_roots(P, reads=False, cfg=two, kinds=('commit', 'c-commit')):
        j.judge = judge_for(j.name, False)
        j.prune = txlib.either(*([j.prune] if j.prune else []) + pr)
        out.append(j)
    return out

def until_copied(e, st):
    """stop at the manifest transaction: what comes after is the commit's business"""
    return e.k == 'begin'
