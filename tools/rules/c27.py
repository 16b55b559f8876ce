from vlib.rulelib import *
from vlib import txlib, fslib
from rules import c01, c26, c31

ID = 'C27'
RULE = '''
On every path of cleaning up snapshots (Rust and C): a file is only removed if it was found by listing the directory of the handle
as a plain file named values-… inside a directory named snapshot-…, and at that moment an exclusive lock covering that file from 0 on without
end, obtained on a file opened at that same path, is held; only directories found there with a name starting with snapshot- are
removed, with remove_dir, which refuses a directory that isn't empty; nothing else is removed, renamed, truncated or overwritten.
On every path of a read (Rust reader, single read, C reader): a clone file that is cached is covered by a shared lock from 0 on
without end, still held when the read returns, and keeps the temporary directory it is in alive.
'''
FLOORS = {'file': 8, 'dir': 8, 'reader': 4, 'keeps': 4}
ASSUME = ['remove_dir fails for a directory that is not empty (POSIX rmdir)']

def parts(p):
    """(directory, outer entry, inner entry) of a path made from directory listings"""
    if p.op == 'join' and p.a[1].op == 'entname':
        e = p.a[1].a[0]
        q = p.a[0]
        if q.op == 'join' and q.a[1].op == 'entname':
            return q.a[0], q.a[1].a[0], e
        return q, e, None
    if p.op == 'parent':
        r = parts(p.a[0])
        if r and r[2] is not None:
            return r[0], r[1], None
    return None

def shown(tr, ent, prefix, kind):
    """the path found out that the entry's name starts with prefix and that it is of that kind"""
    name = mk('entname', ent)
    a = b = False
    for t, v in tr.facts.items():
        if v and t.op == 'pfx' and t.a[0] is name and t.a[1].op == 'str' and t.a[1].a[0].startswith(prefix):
            a = True
        elif v and t.op == kind and any(x is ent for x in c26.subterms(t)):
            b = True
    return a and b

def handle_dir(d):
    return not any(x.op in ('entname', 'tdpath', 'ntfpath', 'parent') for x in c26.subterms(d))

def cleanup_judge(name):
    def judge(tr, coll):
        fs = fslib.FileState(tr)
        for i, e in enumerate(tr.events):
            d = fslib.discards(e)
            if e.k == 'fs' and e.op in ('remove_dir', 'remove_dir_all', 'rename'):
                d = ('path', e.path)
            if d is None and e.k in ('exec', 'pragma', 'dbconfig') and e.d.get('op') != 'prepare' and c26.writes(e):
                coll.bad(name + ':manifest', '%s: cleaning up snapshots changes the manifest' % name, e, tr)
            if d is None:
                fs.step(i, e)
                continue
            p = parts(d[1]) if d[0] == 'path' else None
            if e.k != 'fs' or e.op not in ('remove_file', 'remove_dir') or p is None:
                coll.bad('%s:foreign:%s' % (name, e.d.get('op', e.k)), '%s: cleaning up snapshots discards something that was not found as a snapshot (%s of %s)' % (name, e.d.get('op', e.k), show(d[1])[:100]), e, tr)
            elif not handle_dir(p[0]) or not shown(tr, p[1], b'snapshot-', 'isdir'):
                coll.bad(name + ':not-snapshot', '%s: cleaning up snapshots removes something that is not in, nor is, a snapshot directory of this directory' % name, e, tr)
            elif e.op == 'remove_dir':
                if p[2] is not None:
                    coll.bad(name + ':inner-dir', '%s: cleaning up removes a directory inside a snapshot' % name, e, tr)
                else:
                    coll.ok('dir', show(d[1])[:100])
            elif p[2] is None or not shown(tr, p[2], b'values-', 'isfile'):
                coll.bad(name + ':not-value', '%s: cleaning up removes something from a snapshot directory that is not shown to be a cloned values file' % name, e, tr)
            else:
                held = [f for f, q in fs.path.items() if q is d[1] and f not in fs.closed and fs.covers(f, I(0), None)]
                if held:
                    coll.ok('file', show(d[1])[:100])
                else:
                    coll.bad(name + ':in-use', '%s: a snapshot file is removed without an exclusive lock showing that nothing reads it' % name, e, tr)
            fs.step(i, e)
    return judge

def reader_judge(name):
    def judge(tr, coll):
        P = tr.I.P
        fs = fslib.FileState(tr)
        kept = []
        for i, e in enumerate(tr.events):
            fs.step(i, e)
            if e.k == 'minsert' and c31.clones(e):
                kept.append((i, e))
        for i, e in kept:
            c = c31.at(tr, e.v)
            if c is None:
                coll.bad(name + ':shape', '%s: what is put into the cache of file clones is not understood: %s' % (name, show(e.v)[:100]), e, tr)
                continue
            f = c.a[2][txlib.field_of_type(P, 'FileClone', 'fs::File')]
            p = fs.path.get(f)
            if p is None:
                continue
            td = [x for x in c26.subterms(p) if x.op == 'tdpath']
            if not td:
                continue
            if not fs.covers(f, I(0), None, shared=True) or f in fs.closed:
                coll.bad(name + ':unlocked', '%s: a cloned file is cached for reading without a shared lock on it, so cleaning up can remove it' % name, e, tr)
            else:
                coll.ok('reader', show(p)[:100])
            if reaches(tr, c, td[0].a[0]):
                coll.ok('keeps', show(p)[:100])
            else:
                coll.bad(name + ':tempdir', '%s: a cached clone does not keep the directory it is in, which is removed with it when the reader ends' % name, e, tr)
    return judge

def reaches(tr, c, want):
    """want is part of c or of what c's pointers lead to"""
    seen, work = set(), [c]
    while work:
        for x in c26.subterms(work.pop()):
            if x is want:
                return True
            if x.op == 'ref' and x not in seen:
                seen.add(x)
                y = tr.I.load(tr.st, x)
                if isinstance(y, Term):
                    work.append(y)
    return False

def jobs(ctx):
    P = ctx.prog()
    out = []
    for n, s in (('Handle::cleanup_snapshots', 'Handle::cleanup_snapshots'), ('possum_cleanup_snapshots', 'ext:possum_cleanup_snapshots')):
        fs_ = find(P, s)
        if not fs_:
            raise Missing(s)
        for m in (False, True):
            out.append(Job(n + (' (whole-file locks)' if m else ''), fs_[0], judge=cleanup_judge(n), cfg=dict(K=2, elem_total=3, err_cap=1), setup=flockmode(m)))
    cfg = dict(K=3, elem_total=1)
    for m in (False, True):
        t = ' (whole-file locks)' if m else ''
        out.append(Job('read' + t, script=c01.mk_read(1), judge=reader_judge('read'), cfg=cfg, prune=c01.noerr(), setup=flockmode(m)))
        out.append(Job('read_single' + t, need(P, 'Handle::read_single'), judge=reader_judge('read_single'), cfg=cfg, prune=c01.noerr(), setup=flockmode(m)))
    out.append(Job('c-read', script=txlib.c_read_script(1, tail=[c01.c_tail]), judge=reader_judge('C read'), cfg=cfg, prune=c01.noerr()))
    return out
