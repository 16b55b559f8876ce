from vlib.rulelib import *
from vlib import txlib, check
from vlib.check import closure_job, spawned_closures
from rules.c26 import subterms

ID = 'C21'
RULE = '''
On every path of the background reclaimer, up to a bounded number of rounds: every value it receives is tried; a value whose region could
not be locked is tried again before the thread can end; it never waits without a limit while it has such a value; a value is only tried again if a lock on its file was refused; it ends, or lets go of
its receiver, only after the receiver reported that the handle is gone (or when the manifest can't be opened at all).
On every path of every public operation, values that the reclaimer's queue has no room for are handed over again, waiting for room.
'''
FLOORS = {'received': 4, 'retried': 4, 'ends': 2, 'waits': 4, 'full': 1}
ASSUME = ['an error other than a lock that is held (opening the values file, punching) drops that one value with a message in the log; this is C15\'s concern',
          'the thread is not ended by a panic: C15', 'which values are handed over by a commit is C05\'s concern']
LONG = 24 * 3600

def elems(v):
    return {t for t in subterms(v) if t.op == 'elem' and t.a[0].op == 'recvd'}

def segment(e):
    """a failed lock of a part of a file, rather than of all of it"""
    a = e.d.get('arg')
    if a is None or a.op != 'agg' or len(a.a[2]) < 4:
        return None
    return not all(x.op == 'int' for x in a.a[2][2:4])

def limited(v):
    if v is None:
        return False
    if v.op == 'agg' and v.a[2] and v.a[2][0].op == 'int':
        return v.a[2][0].a[0] <= LONG
    return True

def reclaimer(tr, coll):
    left = {}          # value -> the event which found its region locked
    got, tried, when = [], {}, {}
    files = {}
    fails = {}
    gone = opened = False
    nodb = False
    def forgotten(v, e, how):
        coll.bad('forgotten:' + how, 'reclaimer: %s with a value whose region was locked' % how if how != 'untried' else
                 'reclaimer: ends without having tried a value it received', e, tr)
    for i, e in enumerate(tr.events):
        k = e.k
        if k == 'sqlopen':
            nodb = e.outcome != 'ok'
        elif k == 'recv':
            if e.outcome == 'ok':
                got.append((e.d['v'], e))
                coll.ok('received', 'reclaimer')
            elif e.outcome == 'disconnected':
                gone = True
            if e.kind in ('recv', 'recv_timeout') and left and not gone and not (e.kind == 'recv_timeout' and limited(e.d.get('timeout'))):
                forgotten(None, e, 'waits without a limit')
                return
            if left:
                coll.ok('waits', 'reclaimer')
        elif k == 'sleep' and left:
            d = e.d.get('d') or e.d.get('dur') or e.d.get('v')
            if d is not None and not limited(d):
                forgotten(None, e, 'sleeps without a limit')
                return
        elif k == 'truncate' and not e.whole and any(t.op == 'recvd' for t in subterms(e.before)):
            coll.bad('forgotten:cut', 'reclaimer: keeps only the first of the values it has to try', e, tr)
            return
        elif k == 'chandrop':
            if not gone and e.ch.op == 'receiver' and not nodb:
                coll.bad('receiver', 'reclaimer: lets go of its receiver while its handle is still there', e, tr)
                return
        elif k == 'open':
            for x in elems(e.path):
                if x in tried and e.outcome == 'ok' and tried[x].outcome == 'ok' and not fails.get(tried[x].file) and not any(y.d.get('outcome') == 'err' for y in tr.events[when[x]:i]):
                    coll.bad('needless', 'reclaimer: tries a value again whose region was not found locked, and so may never end', e, tr)
                    return
                tried[x] = e
                when[x] = i
                files[e.file] = x
                fails[e.file] = 0
                if x in left:
                    coll.ok('retried', 'reclaimer')
                    del left[x]
        elif k == 'sys' and e.name in ('fcntl', 'flock') and e.fd.op == 'fd' and e.fd.a[0] in files:
            f = e.fd.a[0]
            if e.outcome == 'again':
                fails[f] += 1
                if segment(e) if e.name == 'fcntl' else fails[f] > 1:
                    left[files[f]] = e
            elif e.outcome == 'ok':
                left.pop(files[f], None)
    if tr.outcome != 'ret':
        return
    if nodb:
        return
    coll.ok('ends', 'reclaimer')
    if left:
        x, e = next(iter(left.items()))
        forgotten(x, e, 'ends')
        return
    if not gone:
        coll.bad('early', 'reclaimer: ends while its handle is still there', tr.events[-1] if tr.events else None, tr)
        return
    for v, e in got:
        if not accounted(tr, v, tried):
            forgotten(v, e, 'untried')
            return

def accounted(tr, v, tried):
    """some collection that v's values are part of was gone through to its end, and every value of it tried"""
    for f, val in tr.facts.items():
        if f.op != 'has' or val is not False:
            continue
        parts, single = members(f.a[0])
        if v not in parts:
            continue
        n = f.a[1]
        if len([x for x in tried if x in single or x.a[0] in parts]) >= n:
            return True
    return False

def members(s):
    parts, single = set(), set()
    work = [s]
    while work:
        t = work.pop()
        if t.op == 'elem':
            single.add(t)
        elif t.op == 'recvd':
            parts.add(t)
        else:
            for x in t.a:
                if isinstance(x, tuple):
                    work.extend(y for y in x if hasattr(y, 'op'))
                elif hasattr(x, 'op'):
                    work.append(x)
    return parts, single

def handing(name):
    def judge(tr, coll):
        for i, e in enumerate(tr.events):
            if e.k != 'send' or e.d.get('blocking') or e.outcome != 'full':
                continue
            if any(x.k == 'send' and x.ch is e.ch and x.d.get('v') is e.d.get('v') and (x.d.get('blocking') or x.outcome != 'full') for x in tr.events[i + 1:]):
                coll.ok('full', name)
            elif tr.outcome == 'ret':
                coll.bad('%s:full' % name, '%s: values the reclaimer has no room for are dropped' % name, e, tr)
                return
    return judge

def jobs(ctx):
    P = ctx.prog()
    out = []
    sp = spawned_closures(ctx)
    for s in sp:
        for on in (False, True):
            out.append(Job('reclaimer' + (' (whole-file locks)' if on else ''), judge=reclaimer, closure=closure_job(s, {ENVF: on}),
                           cfg=dict(K=3, elem_total=2 if ctx.tier == 'thorough' else 1, err_cap=0, recv_ok=2)))
        out.append(Job('reclaimer (failures)', judge=reclaimer, closure=closure_job(s, {ENVF: False}), cfg=dict(K=3, elem_total=1, err_cap=1)))
    for j in txlib.every_op(P, None):
        j.judge = handing(j.name.split('::')[-1])
        out.append(j)
    return out
