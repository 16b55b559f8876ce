from vlib.rulelib import *

ID = 'C23'
RULE = '''
All paths of the sparse-file primitives are enumerated with symbolic arguments.  punchfile: every effect is one
fallocate of exactly (offset, length) on the given file with PUNCH_HOLE|KEEP_SIZE.  fclonefile_noflags / clonefile:
success implies exactly one FICLONE ioctl from the source to a freshly created destination, which is opened without
truncating an existing file.  seek_hole_whence: one lseek with the given offset and the whence of the requested region
kind; its result is passed on, ENXIO alone means none.  In each of them a failing call makes the function fail.
check_hole accepts exactly "no data" and "data at or past the end of the range".
'''
FLOORS = {'punch': 1, 'punch-fail': 1, 'clone': 1, 'clone-fail': 1, 'seek': 1, 'seek-none': 1, 'seek-fail': 1, 'check-hole': 1}
PUNCH, KEEP = 2, 1
FICLONE = 0x40049409
SEEK_DATA, SEEK_HOLE = 3, 4
ENXIO = 6
F, SRC = mk('arg', 'file'), mk('arg', 'src')
OFF, LEN = mk('arg', 'offset'), mk('arg', 'length')

def isarg(t, n):
    a = mk('arg', n)
    return t is a or t is mk('deref', a)

def effects(tr):
    return [e for e in tr.events if e.k in ('sys', 'fs', 'open')]

def punch_judge(tr, coll):
    es = effects(tr)
    k, v = rkind(tr)
    for e in es:
        if e.k != 'sys' or e.name != 'fallocate' or e.fd is not mk('fd', mk('deref', F)):
            coll.bad('punchfile:call', 'punching a hole makes the call %r' % e, e, tr)
            return
        if e.mode is not I(PUNCH | KEEP):
            coll.bad('punchfile:mode', 'fallocate mode %s is not PUNCH_HOLE|KEEP_SIZE' % show(e.mode), e, tr)
        if e.off is not OFF or e.d['len'] is not LEN:
            coll.bad('punchfile:range', 'punches (%s, %s) when asked for (offset, length)' % (show(e.off), show(e.d['len'])), e, tr)
    if tr.outcome == 'ret':
        if not es:
            if k != 'err' and tr.I.decide(tr.st, eq0(LEN)) is not True:
                coll.bad('punchfile:nocall', 'returns success without punching', None, tr)
            return
        if es[-1].outcome == 'ok':
            if k == 'ok':
                coll.ok('punch', 'fallocate(fd, 3, offset, length)')
            else:
                coll.bad('punchfile:okfail', 'fails although the call succeeded', es[-1], tr)
        elif k != 'err':
            coll.bad('punchfile:swallow', 'the system call failed and punchfile returns success', es[-1], tr)
        else:
            coll.ok('punch-fail')

def clone_judge(name, by_path):
    def judge(tr, coll):
        es = effects(tr)
        k, v = rkind(tr)
        if tr.outcome != 'ret':
            return
        opens = {e.file: e for e in es if e.k == 'open' and e.outcome == 'ok'}
        io = [e for e in es if e.k == 'sys' and e.name == 'ioctl']
        other = [e for e in es if e.k == 'sys' and e.name != 'ioctl' or e.k == 'fs' and e.op not in ('remove_file', 'metadata', 'exists', 'stat')]
        for e in other:
            coll.bad(name + ':call', '%s makes the call %r' % (name, e), e, tr)
        for e in opens.values():
            if isarg(e.path, 'dst') and 'create_new' not in e.flags and ('truncate' in e.flags or any(x.fd is mk('fd', e.file) for x in io)):
                coll.bad(name + ':truncate', '%s %s an existing destination' % (name, 'truncates' if 'truncate' in e.flags else 'replaces what is in'), e, tr)
            if isarg(e.path, 'srcpath') and ('truncate' in e.flags or 'write' in e.flags or 'append' in e.flags or 'create' in e.flags):
                coll.bad(name + ':source', '%s opens its source with %s' % (name, e.flags), e, tr)
        for e in io:
            d, s_ = e.fd, e.arg
            if e.req is not I(FICLONE):
                coll.bad(name + ':req', '%s uses ioctl request %s' % (name, show(e.req)), e, tr)
            de = opens.get(d.a[0]) if d.op == 'fd' else None
            if de is None or not isarg(de.path, 'dst'):
                coll.bad(name + ':dst', '%s clones into %s rather than the destination' % (name, show(d)), e, tr)
            if by_path:
                se = opens.get(s_.a[0]) if s_.op == 'fd' else None
                good = se is not None and isarg(se.path, 'srcpath')
            else:
                good = s_ is mk('fd', mk('deref', SRC))
            if not good:
                coll.bad(name + ':src', '%s clones from %s rather than the source' % (name, show(s_)), e, tr)
        fails = [e for e in es if e.outcome == 'err' and not (e.k == 'fs' and e.op == 'remove_file')]
        if k == 'ok':
            good = [e for e in io if e.outcome == 'ok']
            if len(good) != 1 or fails:
                coll.bad(name + ':ok', '%s returns success with %d successful clone calls and %d failures' % (name, len(good), len(fails)), fails[0] if fails else None, tr)
            else:
                coll.ok('clone', name)
        elif k == 'err':
            if not fails:
                coll.bad(name + ':err', '%s fails although every call succeeded' % name, None, tr)
            else:
                coll.ok('clone-fail')
    return judge

def seek_judge(region):
    want = SEEK_DATA if region == 'Data' else SEEK_HOLE
    name = 'seek_hole_whence(%s)' % region
    def judge(tr, coll):
        if tr.outcome != 'ret':
            if tr.outcome == 'panic':
                coll.bad(name + ':panic', '%s panics' % name, None, tr)
            return
        es = effects(tr)
        k, v = rkind(tr)
        for e in es:
            if e.k != 'sys' or e.name != 'lseek' or e.fd is not mk('fd', mk('deref', F)) or e.off is not OFF or e.whence is not I(want):
                coll.bad(name + ':call', '%s makes the call %r' % (name, e), e, tr)
                return
        if not es:
            coll.bad(name + ':nocall', 'returns without seeking', None, tr)
            return
        e = es[-1]
        if e.outcome == 'ok':
            s_ = optkind(v) if k == 'ok' else ('', None)
            if s_ != ('some', mk('lseekret', e.id)):
                coll.bad(name + ':result', '%s: a successful seek returns %s' % (name, show(tr.value)), e, tr)
            else:
                coll.ok('seek', name)
        else:
            x = tr.I.decide(tr.st, eq(mk('errnoval', e.errno), I(ENXIO)))
            if x is None:
                x = nxio(tr, e.errno)
            if k == 'ok' and optkind(v)[0] == 'none':
                if x is not True:
                    coll.bad(name + ':swallow', '%s: returns none for a failure that is not known to be ENXIO' % name, e, tr)
                else:
                    coll.ok('seek-none', name)
            elif k == 'ok':
                coll.bad(name + ':result', '%s: a failed seek returns %s' % (name, show(tr.value)), e, tr)
            else:
                if x is not False:
                    coll.bad(name + ':enxio', '%s: ENXIO is reported as a failure' % name, e, tr)
                else:
                    coll.ok('seek-fail', name)
    return judge

def nxio(tr, er):
    """is the error known (not) to be ENXIO, however it was compared"""
    for f, val in tr.facts.items():
        if isinstance(f, Term) and contains(f, lambda t: t is er):
            if f.op == 'discr':
                P = tr.I.P
                if isinstance(val, frozenset):
                    return False if ENXIO in val else None
                return val == ENXIO
            if f.op == 'eq0' or f.op == 'eqv':
                if contains(f, lambda t: t.op == 'int' and t.a[0] in (ENXIO, -ENXIO)) or f.op == 'eq0' and abs(lin_of(f.a[0])[0]) == ENXIO:
                    return val
    return None

def hole_judge(tr, coll):
    """check_hole(file, offset, length)"""
    if tr.outcome != 'ret':
        return
    k, v = rkind(tr)
    ls = [e for e in tr.events if e.k == 'sys' and e.name == 'lseek']
    if len(ls) != 1 or ls[0].off is not OFF or ls[0].whence is not I(SEEK_DATA):
        coll.bad('check_hole:seek', 'check_hole does not seek the next data from the offset (%s)' % ls, ls[0] if ls else None, tr)
        return
    e = ls[0]
    if e.outcome == 'ok':
        past = tr.I.decide(tr.st, lt(mk('lseekret', e.id), add(OFF, LEN)))
        if past is None:
            coll.bad('check_hole:cmp', 'check_hole returns %s without comparing the data offset with the end of the range' % k, e, tr)
        elif (k == 'ok') != (past is False):
            coll.bad('check_hole:result', 'data %s the end of the range gives %s' % ('before' if past else 'at or past', k), e, tr)
        else:
            coll.ok('check-hole', 'data %s end -> %s' % ('before' if past else 'past', k))
    elif nxio(tr, e.errno):
        if k != 'ok':
            coll.bad('check_hole:none', 'no data after the offset gives %s' % k, e, tr)
        else:
            coll.ok('check-hole')
    elif k == 'ok':
        coll.bad('check_hole:swallow', 'a failed seek counts as a hole', e, tr)

def jobs(ctx):
    P = ctx.prog()
    out = [Job('punchfile', need(P, 'punchfile'), args=A(F, OFF, LEN), judge=punch_judge)]
    out.append(Job('fclonefile_noflags', need(P, 'fclonefile_noflags'), args=A(SRC, 'dst'), judge=clone_judge('fclonefile_noflags', False)))
    out.append(Job('clonefile', need(P, 'sys::clonefile'), args=A('srcpath', 'dst'), judge=clone_judge('clonefile', True)))
    sk = find(P, 'seek_hole_whence')
    if not sk:
        raise Missing('seek_hole_whence')
    for f in sk:
        for r in ('Data', 'Hole'):
            out.append(Job('seek_hole_whence(%s)' % r, f, args=A(F, OFF, enum(P, 'RegionType', r)), judge=seek_judge(r)))
    out.append(Job('check_hole', need(P, 'check_hole'), args=A(F, OFF, LEN), judge=hole_judge))
    return out
