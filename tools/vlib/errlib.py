"""What becomes of a failed storage step: the places where the code may go on, told by what the path shows, not by where it is."""
import re
from .rulelib import *
from . import txlib, fslib

UNSUPPORTED = (95, 18)               # EOPNOTSUPP, EXDEV
ENXIO = 6
BUILTIN = {'NotFound': 0, 'AlreadyExists': 12}

def is_failure(e):
    """a manifest statement, file operation, lock, clone or punch that failed (a lock held by someone else is not a failure)"""
    return e.d.get('outcome') == 'err' and e.k in ('exec', 'begin', 'commit', 'rollback', 'pragma', 'dbconfig', 'sqlopen', 'open', 'fs', 'sys', 'malloc') or e.k == 'rowerr'

def failures(tr):
    return [(i, e) for i, e in enumerate(tr.events) if is_failure(e)]

def isql(e):
    return e.k in ('exec', 'begin', 'commit', 'rollback', 'pragma', 'dbconfig', 'sqlopen', 'rowerr')

def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            if isinstance(x, tuple):
                todo += list(x)
            continue
        seen.add(x)
        todo += list(x.a)
    return seen

def of(e, x):
    """the error term x is of the failure e"""
    if x.op == 'ioerr':
        if e.k in ('fs', 'open'):
            return x is e.d.get('ret')
        return e.k == 'sys' and len(x.a) > 1 and x.a[1] is e.d.get('errno')
    if x.op == 'errno':
        return e.k == 'sys' and x.a[0] == e.d.get('id')
    return x.op == 'sqlerr' and x is e.d.get('ret')

def about(tr, e):
    """what the path assumed about the error of e"""
    for t, v in tr.facts.items():
        if isinstance(t, Term) and any(x.op in ('ioerr', 'errno', 'sqlerr') and of(e, x) for x in subterms(t)):
            yield t, v

def errno_known(tr, e):
    """the errno the path found out, if any"""
    for t, v in about(tr, e):
        if t.op == 'eq0' and v is True:
            c, d = terms.lin_of(t.a[0])
            if len(d) == 1:
                (a, k), = d.items()
                if a.op in ('oserr', 'errnoval') and k in (1, -1):
                    return -c * k
        if t.op == 'discr' and t.a[0].op == 'errno' and isinstance(v, int) and not isinstance(v, bool):
            return v
    return None

def kind_known(tr, e):
    for t, v in about(tr, e):
        if t.op == 'discr' and t.a[0].op == 'iokind' and isinstance(v, int) and not isinstance(v, bool):
            return v
        if t.op == 'eq0' and v is True:
            c, d = terms.lin_of(t.a[0])
            if len(d) == 1:
                (a, k), = d.items()
                if a.op == 'discr' and a.a[0].op == 'iokind' and k in (1, -1):
                    return -c * k
    return None

def busy_known(tr, e):
    """the path found out that the failure is SQLITE_BUSY"""
    P = tr.I.P
    want = None
    for t in P.T:
        if t['k'] == 'adt' and t.get('n', '').split('::')[-1] == 'ErrorCode':
            for v in t['variants']:
                if v['n'] == 'DatabaseBusy':
                    want = int(v['d'])
    return any(t.op == 'discr' and t.a[0].op == 'fld' and v == want and not isinstance(v, bool) for t, v in about(tr, e))

def file_of(e):
    if e.k == 'fs':
        f = e.d.get('file')
        return fslib.shared(f) if isinstance(f, Term) else None
    if e.k == 'sys':
        fd = e.d.get('fd')
        return fslib.shared(fslib.fileof(fd)) if isinstance(fd, Term) else None
    return None

def used_after(tr, i, f):
    """the file is used (not only closed) after event i, or kept"""
    for e in tr.events[i + 1:]:
        if e.k in ('fs', 'sys') and file_of(e) is f:
            if e.k == 'sys' and e.name in ('fcntl', 'flock') and unlocking(e):
                continue
            return e
        if e.k in ('push', 'minsert') and isinstance(e.d.get('v'), Term) and any(x is f for x in subterms(e.v)):
            return e
    return None

def unlocking(e):
    if e.name == 'fcntl':
        a = e.d.get('arg')
        return isinstance(a, Term) and a.op == 'agg' and a.a[2] and a.a[2][0] is I(2)
    return False

def closed_after(tr, i, f):
    return any(e.k == 'close' and fslib.shared(e.file) is f for e in tr.events[i + 1:])

def excuse(tr, i, e, cleanup=False, background=False):
    """why the operation may still report success after this failure; None if it may not"""
    ev = tr.events
    no = errno_known(tr, e)
    f = file_of(e)
    if no in UNSUPPORTED and cloning(tr, i, e):
        return 'cloning unsupported'
    if e.k == 'sys' and e.name == 'lseek' and no == ENXIO:
        return 'nothing past this offset'
    k = kind_known(tr, e)
    if k == BUILTIN['NotFound'] and (e.k == 'open' or e.k == 'fs' and e.op in ('remove_file', 'remove_dir')):
        return 'already gone'
    if k == BUILTIN['AlreadyExists'] and (cloneopen(e) or isclone(e)) and any(cloneopen(x) and x.outcome == 'ok' for x in ev[i + 1:]):
        return 'name taken, another one used'
    if e.k == 'fs' and e.op in ('remove_file', 'remove_dir'):
        made = {x.path for x in ev[:i] if cloneopen(x)}
        if any(e.path is p for p in made) or not made and testname(e.path):
            return 'best-effort removal of a scratch file'
        if cleanup and any(x.op == 'entname' for x in subterms(e.path)):
            return 'best-effort removal of unused snapshots'
    if e.k == 'pragma' and busy_known(tr, e) and any(x.k == 'pragma' and x.name == e.name and x.d.get('value') == e.d.get('value') and x.outcome == 'ok' for x in ev[i + 1:]):
        return 'busy, retried'
    done = [x for x in ev[:i] if x.k == 'commit' and x.outcome == 'ok']
    if done and not isql(e) and f is not None and used_after(tr, i, f) is None:
        return 'after the commit: the file is not used again'
    if f is not None and f.op == 'file':
        o = [x for x in ev[:i] if x.k == 'open' and x.outcome == 'ok' and x.d.get('file') is f]
        if o and candidate(o[-1]) and closed_after(tr, i, f) and used_after(tr, i, f) is None:
            return 'an existing values file passed over'
    if e.k == 'open' and candidate(e):
        return 'an existing values file passed over'
    if background and logged(tr, i):
        return 'logged by the background reclaimer'
    return None

def logged(tr, i):
    """a warning or an error is logged before the next storage step starts"""
    for x in tr.events[i + 1:]:
        if x.k == 'log' and re.search(r'LevelInner#[34]|log::Level#[01]', str(x.d.get('level'))):
            return True
        if x.k in ('exec', 'open', 'begin', 'recv', 'sqlopen'):
            return False
    return False

def candidate(o):
    """opened to append, at a path found by listing the directory"""
    return 'append' in o.flags and any(x.op == 'entname' for x in subterms(o.path))

def isclone(e):
    return e.k == 'sys' and e.name == 'ioctl' and e.d.get('req') is I(1074041865)

def cloneopen(e):
    return e.k == 'open' and 'create_new' in e.flags

def testname(p):
    n = fslib.prefix_of(p.a[1]) if p.op == 'join' else b''
    return n.startswith(b'.')

def cloning(tr, i, e):
    """the failure is a step of cloning a file: it, or the rest of the steps, is FICLONE, its opens, or what is done to the clone"""
    if isclone(e) or e.k == 'open':
        return True
    if e.k == 'fs' and e.op == 'tempdir':
        return True
    f = file_of(e)
    if f is None:
        return False
    o = [x for x in tr.events[:i] if x.k == 'open' and x.outcome == 'ok' and x.d.get('file') is f]
    return bool(o) and any(x.op in ('tdpath', 'ntfpath') for x in subterms(o[-1].path))

# ------------------------------------------------------------------ panics

def site(tr):
    """(function, block) of the innermost frame of this crate"""
    for f in reversed(tr.st.frames):
        fn = getattr(f, 'fn', None)
        if fn and tr.I.P.local(fn):
            return fn['path'], 'bb%d' % f.bb
    return None, None

def impossible(tr):
    """the path supposes that a writer's file is positioned before its last committed offset, which C10 excludes"""
    ef = fslib.EF(tr.I.P)
    fa = None
    for e in tr.events:
        if e.k == 'fs' and e.op == 'position' and e.outcome == 'ok':
            f = e.file
            if f.op == 'fld' and f.a[1] == ef.file:
                fa = fa or fslib.Facts(tr, fslib.nonneg)
                if fa.entails(add(sub(mk('fld', f.a[0], ef.lco), e.ret), I(-1))):
                    return True
    return False

class Panics:
    """panic sites seen, with and without a failed step on the way"""
    @staticmethod
    def note(tr, coll, name):
        n = len(failures(tr))
        if n > 1 or impossible(tr):
            return
        fn, where = site(tr)
        coll.ok('panic-site', None)
        key = 'panic:%s|%s' % (fn, where)
        if n == 0:
            coll.notes.add(key)
        else:
            coll.bad(key, '%s: panics in %s because a storage step failed' % (name, fn), failures(tr)[0][1], tr)

    @staticmethod
    def settle(res):
        """a site that is also reached without any failure does not panic because of one"""
        for k in [k for k in res.bad if k.startswith('panic:')]:
            v = res.bad.pop(k)
            if k not in res.notes:
                k2 = k.split('|')[0]
                v['key'] = k2
                res.bad.setdefault(k2, v)
        res.notes = {n for n in res.notes if not n.startswith('panic:')}
