from vlib.rulelib import *
from vlib import txlib, errlib

ID = 'C15'
RULE = '''
On every path of every public operation of the Rust interface on which one storage step fails (manifest statement, row, transaction
begin or commit, pragma, file operation, lock, clone, punch), the operation reports failure, unless the path itself shows that the
failure is one of: cloning found unsupported by its errno; ENXIO of a seek (nothing past it); NotFound of an open or removal;
AlreadyExists of a new file, followed by a new name; removal of a scratch file or unused snapshot; SQLITE_BUSY followed by the same
pragma succeeding; a file operation after the commit on a file not used again; an existing values file passed over while looking for
one to write to.  It does not panic where it would not panic without the failure.  In the background reclaimer a failure is logged
and does not end it by a panic.
'''
FLOORS = {'reported': 60}
ASSUME = ['what a failed library call left undone is as modelled', 'failures of memory allocation abort', 'poisoned locks (a panic elsewhere) are not storage failures']

def judge_for(name, **kw):
    def judge(tr, coll):
        if tr.outcome == 'panic':
            errlib.Panics.note(tr, coll, name)
            return
        if tr.outcome != 'ret':
            return
        fails = errlib.failures(tr)
        if len(fails) != 1:
            return
        i, e = fails[0]
        if txlib.succeeded(tr) is False:
            coll.ok('reported', '%s: %s' % (name, what(e)))
            return
        why = errlib.excuse(tr, i, e, **kw)
        if why:
            coll.ok(why, '%s: %s' % (name, what(e)))
        else:
            coll.bad('%s:%s' % (name, what(e)), '%s: reports success although a storage step failed (%s)' % (name, what(e)), e, tr)
    return judge

def what(e):
    o = e.d.get('op') or e.d.get('name')
    if isinstance(o, Term):
        o = show(o)
    return e.k + (' ' + str(o) if o else '')

CFG = dict(K=2, elem_total=1, max_traces=30000)

ROOTS = '''Handle::new Handle::cleanup_snapshots Handle::read_single Handle::single_delete Handle::rename_item Handle::list_items
Handle::move_prefix Handle::delete_prefix Handle::set_instance_limits BatchWriter::commit BatchWriter::stage_write BeginWriteValue::begin
BeginWriteValue::clone_file ValueWriter::copy_from ValueWriter::value_length SnapshotValue::view SnapshotValue::read
impl:ReadAt:SnapshotValue:read_at sys::seekhole::file_regions sys::punchfile::linux::punchfile seek_hole_whence walk::walk_dir check_hole
sys::unix::path_disk_allocation Dir::new Reader::begin Reader::add'''.split()
OPTIONAL = {'sys::seekhole::file_regions', 'sys::punchfile::linux::punchfile', 'seek_hole_whence', 'sys::unix::path_disk_allocation', 'check_hole', 'Dir::new'}

def jobs(ctx):
    P = ctx.prog()
    out = []
    pr = txlib.either(txlib.quiet_send, txlib.nolimit(P))
    for s in ROOTS:
        fs = [f for f in find(P, s) if not check.is_generic(P, f)]
        if not fs:
            if s in OPTIONAL:
                continue
            raise Missing(s)
        n = s.split(':')[-1] if s.startswith('impl:') else s
        for m in (False, True) if n in ('BatchWriter::commit', 'Handle::read_single', 'Handle::cleanup_snapshots') else (None,):
            out.append(Job(n + (' (whole-file locks)' if m else ''), fs[0], judge=judge_for(n, cleanup='cleanup' in s), cfg=CFG, prune=pr if n not in ('Handle::new',) else None,
                           setup=flockmode(m) if m is not None else None))
    out.append(Job('read', script=txlib.read_script(1), judge=judge_for('read'), cfg=CFG))
    for n in ('Handle::single_write_from', 'Handle::clone_from_file'):
        for f in find(P, n)[:1]:
            out.append(Job(n, f, judge=judge_for(n), cfg=dict(CFG), prune=txlib.either(pr, txlib.fresh_file, pooled)))
    for s in check.spawned_closures(ctx):
        out.append(Job('reclaimer', judge=bg, closure=check.closure_job(s), cfg=dict(K=2, elem_total=2)))
    return out

def pooled(e, st):
    """a single write: which file is written to is the business of begin"""
    return False

def bg(tr, coll):
    if tr.outcome == 'panic':
        errlib.Panics.note(tr, coll, 'reclaimer')
        return
    fails = errlib.failures(tr)
    if len(fails) != 1:
        return
    i, e = fails[0]
    why = errlib.excuse(tr, i, e, background=True)
    if why:
        coll.ok(why, 'reclaimer: %s' % what(e))
    else:
        coll.bad('reclaimer:%s' % what(e), 'the background reclaimer drops a failure without logging it (%s)' % what(e), e, tr)

def finish(ctx, res):
    errlib.Panics.settle(res)
