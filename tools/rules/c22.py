from vlib.rulelib import *

ID = 'C22'
RULE = '''
For every request kind (shared/exclusive/unlock, waiting or not), every length shape (none, empty, n) and both
locking modes, all paths of the lock primitives (lock_segment, lock_max_segment, trim_exclusive_lock_left, flock) are
enumerated.  On each path every locking system call must carry the file descriptor of the receiver, the lock type of the
request, whole-from-offset or exactly [offset, offset+len) from SEEK_SET, an open-file-description command that waits
exactly when asked; the result must be true iff the last call succeeded, false iff it reported a conflict, an error iff
it failed otherwise, and an empty range makes no call.
'''
FLOORS = {'range-lock': 12, 'flock': 4, 'empty': 3, 'unlock-prefix': 1}
F_OFD_SETLK, F_OFD_SETLKW = 37, 38
RD, WR, UN = 0, 1, 2
KINDS = {'LockShared': (RD, True), 'LockSharedNonblock': (RD, False), 'LockExclusive': (WR, True),
         'LockExclusiveNonblock': (WR, False), 'Unlock': (UN, None), 'UnlockNonblock': (UN, None)}
FILE = mk('arg', 'file')

def isfd(t):
    return t.op == 'fd' and t.a[0] is mk('deref', FILE)

def result(tr, coll, name, last):
    k, v = rkind(tr)
    if k == 'panic':
        return
    want = {'ok': ('ok', TRUE), 'again': ('ok', FALSE), 'err': ('err', None)}[last.outcome]
    if k != want[0] or want[1] is not None and v is not want[1]:
        coll.bad('%s:result:%s' % (name, last.outcome), '%s: after the lock call %s it returns %s %s' % (
            name, {'ok': 'succeeded', 'again': 'reported a conflict', 'err': 'failed'}[last.outcome], k, show(v) if isinstance(v, Term) else v), last, tr)
    else:
        coll.ok('result:' + last.outcome, '%s -> %s' % (name, k))

def range_judge(name, typ, wait, start, length):
    """length: Term (0 = to the end)"""
    def judge(tr, coll):
        ls = [e for e in tr.events if e.k in ('sys', 'fs')]
        if tr.outcome in ('panic', 'cut', 'diverge'):
            if not ls:
                return
        for e in ls:
            a = e.d.get('arg')
            if e.k != 'sys' or e.name != 'fcntl' or not isfd(e.fd) or a is None or a.op != 'agg' or len(a.a[2]) < 4:
                coll.bad(name + ':call', '%s: a request for a range lock makes the call %r' % (name, e), e, tr)
                return
            ty, wh, st_, ln = a.a[2][:4]
            cmd = e.cmd
            if cmd is not I(F_OFD_SETLK) and cmd is not I(F_OFD_SETLKW):
                coll.bad(name + ':owner', '%s: lock command %s is not an open-file-description lock' % (name, show(cmd)), e, tr)
            elif wait is not None and cmd is not I(F_OFD_SETLKW if wait else F_OFD_SETLK):
                coll.bad(name + ':wait', '%s: asked to %s but the command is %s' % (name, 'wait' if wait else 'not wait', show(cmd)), e, tr)
            if ty is not I(typ):
                coll.bad(name + ':type', '%s: lock type %s, expected %d' % (name, show(ty), typ), e, tr)
            if wh is not I(0) or st_ is not start or ln is not length:
                coll.bad(name + ':range', '%s: locks whence %s start %s length %s, expected start %s length %s' % (
                    name, show(wh), show(st_), show(ln), show(start), show(length)), e, tr)
        if tr.outcome == 'ret':
            if not ls:
                k, v = rkind(tr)
                # only an empty range may do nothing
                if length is I(0) or tr.I.decide(tr.st, eq0(length)) is not True:
                    if k != 'err':
                        coll.bad(name + ':nocall', '%s: returns %s without making a lock call' % (name, show(tr.value)), None, tr)
                    return
                if k != 'ok' or v is not TRUE:
                    coll.bad(name + ':empty', '%s: an empty range returns %s' % (name, show(tr.value)), None, tr)
                else:
                    coll.ok('empty', name)
                return
            result(tr, coll, name, ls[-1])
            coll.ok('range-lock', '%s: fcntl(%s, {type %s, start %s, len %s})' % (name, show(ls[-1].cmd), typ, show(start), show(length)))
    return judge

def flock_judge(name, variant):
    def judge(tr, coll):
        ls = [e for e in tr.events if e.k in ('sys', 'fs')]
        for e in ls:
            if e.k != 'sys' or e.name != 'flock' or not isfd(e.fd):
                coll.bad(name + ':call', '%s: a whole-file lock request makes the call %r' % (name, e), e, tr)
                return
            v = variant_name(tr.I.P, e.arg)
            if v is None or KINDS.get(v, (9, 9))[0] != KINDS[variant][0] or KINDS[v][1] is not KINDS[variant][1]:
                coll.bad(name + ':type', '%s: asked for %s but calls flock with %s' % (name, variant, v or show(e.arg)), e, tr)
        if tr.outcome == 'ret':
            if not ls:
                coll.bad(name + ':nocall', '%s: returns %s without making a lock call' % (name, show(tr.value)), None, tr)
                return
            result(tr, coll, name, ls[-1])
            coll.ok('flock', '%s: flock(%s)' % (name, variant))
    return judge

def trim_judge(name):
    o, n = mk('arg', 'old'), mk('arg', 'new')
    def judge(tr, coll):
        ls = [e for e in tr.events if e.k in ('sys', 'fs')]
        for e in ls:
            a = e.d.get('arg')
            if e.k != 'sys' or e.name != 'fcntl' or not isfd(e.fd) or a.op != 'agg':
                coll.bad(name + ':call', '%s makes the call %r' % (name, e), e, tr)
                return
            ty, wh, s_, ln = a.a[2][:4]
            if e.cmd is not I(F_OFD_SETLK) and e.cmd is not I(F_OFD_SETLKW):
                coll.bad(name + ':owner', '%s: lock command %s' % (name, show(e.cmd)), e, tr)
            if ty is not I(UN) or wh is not I(0) or s_ is not o or ln is not sub(n, o):
                coll.bad(name + ':range', '%s: withdrawing the lock from [old, new) does type %s start %s length %s' % (name, show(ty), show(s_), show(ln)), e, tr)
        if tr.outcome == 'ret':
            if not ls:
                if tr.I.decide(tr.st, eq0(sub(n, o))) is not True and rkind(tr)[0] != 'err':
                    coll.bad(name + ':nocall', '%s: returns %s without a lock call' % (name, show(tr.value)), None, tr)
                return
            result(tr, coll, name, ls[-1])
            coll.ok('unlock-prefix', name)
    return judge

def jobs(ctx):
    P = ctx.prog()
    seg = need(P, 'impl:FileLocking:File:lock_segment')
    mx = find(P, 'impl:FileLocking:File:lock_max_segment')
    trim = need(P, 'impl:FileLocking:File:trim_exclusive_lock_left')
    fl = find(P, 'impl:Flock:File:flock')
    out = []
    for v, (typ, wait) in KINDS.items():
        va = enum(P, 'FlockArg', v)
        none = optterm(P, 'u64')
        n = mk('arg', 'len')
        zero = optterm(P, 'u64', I(0))
        off = mk('arg', 'offset')
        for nm, ln, want in (('to-end', none, I(0)), ('n', optterm(P, 'u64', n), n)):
            out.append(Job('lock_segment(%s, %s)' % (v, nm), seg, args=A(FILE, va, ln, off), setup=flockmode(False),
                           judge=range_judge('lock_segment(%s, %s)' % (v, nm), typ, wait, off, want)))
        nm = 'lock_segment(%s, empty)' % v
        def ej(tr, coll, nm=nm):
            ls = [e for e in tr.events if e.k in ('sys', 'fs')]
            if tr.outcome == 'ret' and (ls or rkind(tr) != ('ok', TRUE)):
                coll.bad(nm, '%s: an empty range does %s and returns %s' % (nm, ls, show(tr.value)), ls[0] if ls else None, tr)
            elif tr.outcome == 'ret':
                coll.ok('empty', nm)
        out.append(Job(nm, seg, args=A(FILE, va, zero, off), setup=flockmode(False), judge=ej))
        out.append(Job('lock_segment(%s) whole-file mode' % v, seg, args=A(FILE, va, none, off), setup=flockmode(True),
                       judge=flock_judge('lock_segment(%s) whole-file mode' % v, v)))
        if mx:
            out.append(Job('lock_max_segment(%s)' % v, mx[0], args=A(FILE, va), setup=flockmode(False),
                           judge=range_judge('lock_max_segment(%s)' % v, typ, wait, I(0), I(0))))
            out.append(Job('lock_max_segment(%s) whole-file mode' % v, mx[0], args=A(FILE, va), setup=flockmode(True),
                           judge=flock_judge('lock_max_segment(%s) whole-file mode' % v, v)))
        for f in fl[:1]:
            out.append(Job('flock(%s)' % v, f, args=A(FILE, va), judge=flock_judge('flock(%s)' % v, v)))
    out.append(Job('trim_exclusive_lock_left', trim, args=A(FILE, 'old', 'new'), setup=flockmode(False), judge=trim_judge('trim_exclusive_lock_left')))
    return out
