import re
from vlib.rulelib import *
from vlib import txlib, errlib, check, terms

ID = 'C24'
RULE = '''
On every path of every public operation on which the only storage step that fails is a clone: with an errno that says cloning is not
supported (EOPNOTSUPP, EXDEV) and that the path's conditions leave possible, the operation does not report failure; with any other errno
(EIO, ENOSPC, EACCES, EBADF) left possible, it does not report success, unless the same file was cloned after that; either way it does
not panic.  A file import that succeeds without a clone copied the source file itself, positioned at its start, to the end.  The
directory is recorded as able to clone only on paths on which a clone, or the file system's own flags, said so.
'''
FLOORS = {'fallback': 4, 'refused': 4, 'import': 2, 'probe': 1}
ASSUME = ['what snapshots fall back to is sound: C01', 'EINVAL, ENOTTY and ENOSYS may be taken either way']
UNSUP = {95: 'Unsupported', 18: 'CrossesDevices'}
OTHER = {5: 'Uncategorized', 28: 'StorageFull', 13: 'PermissionDenied', 9: 'Uncategorized'}

def kinds(P):
    if not hasattr(P, '_iokinds'):
        P._iokinds = {}
        for t in P.T:
            if t['k'] == 'adt' and t.get('n', '').split('::')[-1] == 'ErrorKind' and t.get('variants') and any(v['n'] == 'NotFound' for v in t['variants']):
                P._iokinds = {v['n']: i for i, v in enumerate(t['variants'])}
    return P._iokinds

def possible(tr, e, no, kind):
    """could the failure e have had this errno, by what the path assumed of it?"""
    k = kinds(tr.I.P).get(kind)
    for t, v in errlib.about(tr, e):
        if t.op == 'hasos':
            if v is not True:
                return False
        elif t.op in ('eq0', 'lt0'):
            c, d = terms.lin_of(t.a[0])
            s = c
            for a, m in d.items():
                if a.op in ('oserr', 'errnoval'):
                    s += m * no
                elif a.op == 'discr' and a.a[0].op == 'iokind' and k is not None:
                    s += m * k
                else:
                    s = None
                    break
            if s is not None and (s == 0 if t.op == 'eq0' else s < 0) is not bool(v):
                return False
        elif t.op in ('discr', 'oserr', 'errnoval', 'iokind'):
            x = t.a[0] if t.op == 'discr' else t
            val = no if x.op in ('errno', 'oserr', 'errnoval') else k if x.op == 'iokind' else None
            if val is not None and not isinstance(v, bool):
                if isinstance(v, frozenset) and val in v or isinstance(v, int) and val != v:
                    return False
    return True

def possibly(tr, e, table):
    return [n for n, k in table.items() if possible(tr, e, n, k)]

def judge_for(name, imports=None, probe=False):
    def judge(tr, coll):
        if imports and tr.outcome == 'ret' and txlib.succeeded(tr) is not False:
            imported(name, tr, coll, imports)
        if probe and tr.outcome == 'ret' and txlib.succeeded(tr) is not False:
            probed(name, tr, coll)
        fails = errlib.failures(tr)
        cl = [(i, e) for i, e in fails if errlib.isclone(e)]
        if tr.outcome == 'panic':
            if not fails or cl:
                errlib.Panics.note(tr, coll, name)
            return
        if tr.outcome != 'ret' or len(fails) != 1 or not cl:
            return
        i, e = cl[0]
        if txlib.succeeded(tr) is False:
            if not caused(tr, e):
                return
            un = possibly(tr, e, UNSUP)
            if un:
                coll.bad('%s:refused' % name, '%s: reports failure although cloning is only not supported (errno %s)' % (name, un[0]), e, tr)
            else:
                coll.ok('refused', name)
        elif txlib.succeeded(tr):
            ot = possibly(tr, e, OTHER)
            again = any(errlib.isclone(x) and x.outcome == 'ok' and x.arg is e.arg for x in tr.events[i + 1:])
            if ot and not again:
                coll.bad('%s:silent' % name, '%s: reports success although cloning failed, not for being unsupported (errno %s)' % (name, ot[0]), e, tr)
            else:
                coll.ok('fallback', name)
    return judge

def caused(tr, e):
    """the error returned is that of the clone e, or one made up for it"""
    v = fullval(tr, tr.value)
    for x in errlib.subterms(v):
        if x.op in ('ioerr', 'errno') and errlib.of(e, x):
            return True
        if x.op == 'ioerr' and len(x.a) > 1 and x.a[1] == 'new' and x.a[0] > e.d['id']:
            return True
        if x.op == 'agg' and x.a[0].endswith('Error') and variant_name(tr.I.P, x) in ('UnsupportedFilesystem', 'Unsupported'):
            return True
    return False

def fullval(tr, v, n=4):
    return tr.I.resolve(tr.st, v) if isinstance(v, Term) else v

def imported(name, tr, coll, arg):
    """a file import that did not clone its source copied all of it"""
    src = None
    pos = None
    for e in tr.events:
        if errlib.isclone(e) and e.outcome == 'ok':
            return
    done = None
    for e in tr.events:
        if e.k == 'fs' and e.op == 'copy' and e.outcome == 'ok':
            s = plain(tr, e.src)
            if any(x.op == 'arg' and x.a[0] == arg for x in errlib.subterms(s)):
                done = (e, s)
                break
    if done is None:
        coll.bad('%s:nothing' % name, '%s: succeeds without cloning or copying its source' % name, tr.events[-1] if tr.events else None, tr)
        return
    e, s = done
    if s is not mk('deref', mk('arg', arg)):
        coll.bad('%s:part' % name, '%s: copies %s rather than the source file' % (name, show(s)), e, tr)
        return
    for x in tr.events:
        if x is e:
            break
        if x.k == 'fs' and x.d.get('file') is s:
            if x.op in ('seek', 'rewind') and x.outcome == 'ok':
                pos = x.ret
            elif x.op in ('read', 'copy', 'seek'):
                pos = None
        elif x.k == 'fs' and x.d.get('src') is s:
            pos = None
    if pos is I(0):
        coll.ok('import', name)
    else:
        coll.bad('%s:start' % name, '%s: copies the source from where it happens to be positioned' % name, e, tr)

def plain(tr, t):
    n = 6
    while t.op in ('ref', 'dyn') and n:
        t = tr.I.load(tr.st, t) if t.op == 'ref' else t.a[0]
        n -= 1
    return t

def probed(name, tr, coll):
    P = tr.I.P
    f = txlib.structf(P, 'Dir').get('supports_file_cloning')
    if f is None:
        return
    ok_ = [e for e in tr.events if errlib.isclone(e) and e.outcome == 'ok']
    tried = [e for e in tr.events if errlib.isclone(e)]
    v = txlib.okret(tr.value)
    if v is None or v.op != 'agg' or not v.a[0].endswith('Dir'):
        return
    v = v.a[2][f]
    yes = v.op == 'bool' and v.a[0] or v is not None and tr.I.decide(tr.st, v) is True
    if yes and tried and not ok_:
        coll.bad('%s:probe' % name, '%s: records that the directory supports cloning although trying it failed' % name, tried[-1], tr)
    else:
        coll.ok('probe', name)

def source(P, f):
    """the parameter that is a file to import"""
    if f is None or 'clone' not in f['path'].split('::')[-1]:
        return None
    for l in range(1, f['argc'] + 1):
        t = P.T[f['locals'][l]]
        if t['k'] == 'ref' and P.T[t['t']].get('n') == 'std::fs::File':
            return next((d[1] for d in f['dbg'] if d[0] == l), None)
    return None

def primitive(P, f):
    """the cloning call itself: from a path or a file to a path, with nothing to fall back to"""
    if f is None or f['argc'] != 2:
        return False
    tys = [P.T[t] for t in f['locals'][1:3]]
    names = [P.T[t['t']].get('n', '') if t['k'] == 'ref' else t.get('n', '') for t in tys]
    return all(re.search(r'Path(Buf)?$|fs::File$', n) for n in names)

def jobs(ctx):
    P = ctx.prog()
    out = []
    for j in txlib.every_op(P, None, cfg=dict(K=2, elem_total=1)):
        if primitive(P, j.fn):
            continue
        n = j.name.split('::')[-1]
        a = source(P, j.fn)
        j.judge = judge_for(n, imports=a, probe=j.name.endswith('Dir::new'))
        out.append(j)
    return out

def finish(ctx, res):
    errlib.Panics.settle(res)
