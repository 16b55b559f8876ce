from vlib.rulelib import *
from vlib import txlib, fslib
from vlib.check import closure_job, spawned_closures

ID = 'C02'
RULE = '''
On every path of the code that can throw stored bytes away (the background reclaimer, the removal of all values files
during an upgrade, the command line, the undoing of a failed write and everything else that mentions fallocate, set_len,
remove_file, rename or a truncating open), at each such event the file must hold an exclusive lock, acquired earlier on
the same path and not given up since, that covers the discarded range: [off, off+len) for a punched hole, [n, end) for a
truncation, the whole file for a removal; coverage is proved from the path's linear facts.  The lock request must be an
open-file-description or whole-file lock.  An exclusive file handed in from elsewhere is taken to be locked from its last
committed offset on, and that is checked where exclusive files are made, kept and committed.
'''
FLOORS = {'punched': 10, 'truncated': 4, 'removed': 4, 'reverted': 1, 'owned': 2, 'trimmed': 1}
ASSUME = ['the raw punch-hole debugging command, which punches a given range of a given file, is not covered']

def judge_for(name, raw=False):
    def judge(tr, coll):
        P = tr.I.P
        ef = fslib.EF(P)
        fs = fslib.FileState(tr, ef.init)
        refused = set()
        for i, e in enumerate(tr.events):
            d = fslib.discards(e)
            if d is not None and d[0] == 'range':
                _, f, off, n = d
                if raw and n is not None and f in fs.path and from_user(fs.path[f]):
                    continue
                kind = 'punch' if n is not None else 'truncate'
                if e.d.get('outcome') == 'err' and not fs.locks(f):
                    pass
                l = fs.covers(f, off, n)
                if l is None:
                    how = 'no exclusive lock' if not any(x.typ == fslib.WR for x in fs.locks(f)) else 'an exclusive lock that does not cover the range'
                    coll.bad('%s:%s' % (name, kind), '%s: bytes are discarded (%s) with %s on the file' % (name, kind, how), e, tr)
                elif n is not None:
                    coll.ok('punched', '%s: [off, off+len) within the lock taken at %s' % (name, loc(l.e) if l.e else 'entry'))
                elif l.e is None:
                    coll.ok('reverted', '%s: truncates at or past the last committed offset' % name)
                else:
                    coll.ok('truncated', '%s: [n, end) within the lock taken at %s' % (name, loc(l.e)))
            elif d is not None:
                p = d[1]
                if fslib.not_values_path(p) or p.op in ('ntfpath', 'tempdir'):
                    continue
                if e.k == 'open' and not valuesish(p):
                    continue
                fl = [f for f, q in fs.path.items() if q is p]
                got = [fs.covers(f, I(0)) for f in fl]
                got = [l for l in got if l]
                if not got:
                    coll.bad('%s:remove' % name, '%s: a file is removed, replaced or truncated without an exclusive lock on all of it' % name, e, tr)
                else:
                    coll.ok('removed', '%s: whole file locked at %s' % (name, loc(got[0].e) if got[0].e else 'entry'))
            if e.k in ('minsert', 'push'):
                own(e.v, e, fs, ef, name, coll, tr)
            fs.step(i, e)
        if tr.outcome == 'ret' and isinstance(tr.value, Term):
            own(tr.value, tr.events[-1] if tr.events else None, fs, ef, name, coll, tr)
    return judge

def valuesish(p):
    return p.op == 'join' and not fslib.not_values_path(p)

def own(v, e, fs, ef, name, coll, tr):
    """wherever an exclusive file is kept, it holds the lock its last committed offset promises"""
    for x in subterms(v):
        if x.op == 'agg' and x.a[0] == ef.tag:
            f, o = x.a[2][ef.file], x.a[2][ef.lco]
            if fs.covers(f, o) is None:
                if any(l.typ == fslib.RD for l in fs.locks(f)):
                    continue
                coll.bad('%s:owned' % name, '%s: an exclusive file is kept or returned without an exclusive lock from its last committed offset to the end' % name, e, tr)
            else:
                coll.ok('owned', '%s: exclusive file kept with its lock' % name)

def trim_judge(tr, coll):
    """ExclusiveFile::committed: what stays locked starts at the new last committed offset"""
    P = tr.I.P
    ef = fslib.EF(P)
    f, o = mk('arg', 'file'), mk('arg', 'committed')
    fs = fslib.FileState(tr, lambda g: [fslib.Lock(-1, None, fslib.WR, o, I(0))] if g is f else [])
    for i, e in enumerate(tr.events):
        fs.step(i, e)
    if tr.outcome != 'ret':
        return
    now = tr.I.load(tr.st, tr.st.x['ef'])
    if now.op != 'agg':
        coll.opaque['committed'] += 1
        return
    lco = now.a[2][ef.lco]
    if fs.covers(f, lco) is None:
        coll.bad('committed:lock', 'after committed() the file is not locked from its last committed offset (%s) on' % show(lco), tr.events[-1], tr)
    else:
        coll.ok('trimmed', 'committed() leaves [%s, end) locked' % show(lco))

def committed_script(P):
    fn = need(P, 'ExclusiveFile::committed')
    ef = fslib.EF(P)
    n = len(txlib.structf(P, 'ExclusiveFile'))
    def go(I_, st, env):
        fl = [mk('arg', 'f%d' % i) for i in range(n)]
        fl[ef.file] = mk('arg', 'file')
        fl[ef.lco] = mk('arg', 'committed')
        st.x['ef'] = I_.alloc(st, mk('agg', ef.tag, 0, tuple(fl)))
        return ('call', fn['id'], [st.x['ef']])
    return [go]

def quiet_dir(e, st):
    """file cloning is tried and works"""
    return e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'err' or e.k == 'assume' and e.t is ENVF and e.v

def from_user(p):
    """a path given by the user, rather than found in or made for a possum directory"""
    while p.op in ('fld', 'as', 'deref', 'str_of'):
        p = p.a[0]
    return p.op == 'arg'

def jobs(ctx):
    P = ctx.prog()
    B = ctx.prog('bin')
    out = []
    sp = spawned_closures(ctx)
    if not sp:
        raise Missing('a thread spawned by Handle::new')
    for on in (False, True):
        out.append(Job('reclaimer' + (' (whole-file locks)' if on else ''), closure=closure_job(sp[0], {ENVF: on}), judge=judge_for('reclaimer'), cfg=dict(K=2, elem_total=1)))
    for n, s in (('new', 'ExclusiveFile::new'), ('open', 'ExclusiveFile::open')):
        out.append(Job('ExclusiveFile::' + n, need(P, s), judge=judge_for('ExclusiveFile::' + n), cfg=dict(K=2)))
    out.append(Job('ExclusiveFile::committed', script=committed_script, judge=trim_judge, setup=flockmode(False)))
    out += txlib.write_roots(P, judge=judge_for('write'), reads=False, cfg=dict(K=2, elem_total=1), kinds=('commit', 'single-write'))
    out.append(Job('open', need(P, 'Handle::new'), judge=judge_for('open'), cfg=dict(K=2, elem_total=1, err_cap=0), prune=quiet_dir))
    out.append(Job('cleanup_snapshots', need(P, 'Handle::cleanup_snapshots'), judge=judge_for('cleanup_snapshots'), cfg=dict(K=2)))
    f = find(B, 'main')
    if not f:
        raise Missing('main of the command line tool')
    def pb(e, st):
        return e.k == 'dbconfig' or e.k == 'fs' and e.op in ('copy', 'tempdir') or e.k == 'sys' and e.name == 'ioctl' and e.outcome == 'err'
    out.append(Job('command line', f[0], which='bin', judge=judge_for('command line', raw=True), cfg=dict(K=2, elem_total=2, err_cap=0), prune=pb))
    for n, s in (('copy_from', 'ValueWriter::copy_from'), ('stage_write', 'BatchWriter::stage_write')):
        for g in find(P, s)[:2]:
            out.append(Job(n, g, judge=judge_for(n)))
    return out

def finish(ctx, res):
    """everything that can throw bytes away was explored"""
    fslib.unexplored(ctx, res, fslib.DISCARD)
