import re
from vlib.rulelib import *
from vlib import txlib, check

ID = 'C19'
RULE = '''
On every path of every public operation, of the background reclaimer and of every function given a bundle that holds locks: the classes of
mutexes and read-write locks acquired while others are held form a graph without a cycle; no lock is acquired while a lock of the same
class is held; no function given by the caller is called with one of them held; no lock other than that of a C handle is held while waiting for the reclaimer to accept work; the reclaimer itself takes
no lock, sends nothing and waits for no file lock.  Where readers wait for the file locks of committed values with locks held, what
locks such values lets go of them after its commit without first taking one of these locks or waiting for the reclaimer.
'''
FLOORS = {'order': 3, 'acquire': 40, 'send': 4, 'callback': 1, 'reclaimer': 1, 'committed': 1}
ASSUME = ['locks of the same class are taken to be the same lock', 'locks taken inside of SQLite, of logging and of the allocator are not part of this',
          'a caller does not start another operation on the handle from the thread that holds an open reader of it',
          'segment locks are available (in whole-file lock mode readers wait for writers by design)']

def cls(n):
    n = re.sub(r"'\w+,? ?|&(mut )?", '', n)
    n = re.sub(r'\b(\w+::)+', '', n)
    return n

def guards(P, t, seen=None):
    """classes of the locks whose guards a value of this type holds"""
    seen = set() if seen is None else seen
    if t is None or t < 0 or t in seen:
        return set()
    seen.add(t)
    T = P.T[t]
    out = set()
    if T['k'] == 'adt':
        m = re.match(r'std::sync::(Mutex|RwLock)(Read|Write)?Guard<(.*)>$', T['n'])
        if m:
            return {m.group(1) + '<' + cls(m.group(3)) + '>'}
        if T.get('local'):
            for v in T['variants']:
                for _, ft in v['f']:
                    out |= guards(P, ft, seen)
        elif re.match(r'std::(option|result|boxed|rc|sync::Arc|vec|pin|collections)', T['path']):
            for x in T['targs']:
                out |= guards(P, x, seen)
    elif T['k'] == 'tuple':
        for x in T['ts']:
            out |= guards(P, x, seen)
    elif T['k'] == 'ref' or T['k'] == 'ptr' and P.T[T['t']]['k'] != 'ptr':
        out |= guards(P, T['t'], seen)
    return out

def judge_for(name, initial=(), reclaimer=False):
    def judge(tr, coll):
        held = {('arg', c): c for c in initial}
        committed = None
        waits = []
        for i, e in enumerate(tr.events):
            k = e.k
            if k == 'lock':
                c = cls(e.cls)
                if reclaimer:
                    coll.bad('%s:locks:%s' % (name, c), '%s: the reclaimer waits for %s, which others hold while they wait for it' % (name, c), e, tr)
                    return
                coll.ok('acquire', name)
                for h in set(held.values()):
                    if h == c:
                        coll.bad('again:%s' % c, '%s: takes %s while holding a lock of the same kind' % (name, c), e, tr)
                        return
                    coll.ok('order', '%s -> %s' % (h, c))
                    coll.bad('edge?:%s>%s' % (h, c), '%s: takes %s while holding %s' % (name, c, h), e, tr)
                if committed is not None:
                    waits.append((i, e, c))
                held[e.id] = c
            elif k == 'unlock':
                if e.id in held:
                    del held[e.id]
                elif e.d.get('ty'):
                    m = re.match(r'std::sync::(Mutex|RwLock)(Read|Write)?Guard<(.*)>$', e.d['ty'])
                    if m:
                        held.pop(('arg', m.group(1) + '<' + cls(m.group(3)) + '>'), None)
            elif k == 'send' and e.d.get('blocking'):
                if reclaimer:
                    coll.bad('%s:send' % name, '%s: the reclaimer waits for room in a channel' % name, e, tr)
                    return
                left = sorted(c for c in set(held.values()) if not re.match(r'RwLock<(Handle)>', c))
                if left:
                    coll.bad('%s:send:%s' % (name, left[0]), '%s: waits for the reclaimer to accept work while holding %s' % (name, ', '.join(left)), e, tr)
                    return
                coll.ok('send', name)
                if committed is not None:
                    waits.append((i, e, None))
            elif k == 'commit' and e.outcome == 'ok' and not e.d.get('raw'):
                committed = i
            elif k == 'callopaque':
                for h in sorted(h for h in set(held.values()) if not re.match(r'RwLock<(Handle)>', h)):
                    coll.bad('%s:callback:%s' % (name, h), '%s: calls a function of the caller, which can use the handle, while holding %s' % (name, h), e, tr)
                    return
                coll.ok('callback', name)
            elif k == 'sys' and lockwait(e):
                if reclaimer:
                    coll.bad('%s:wait' % name, '%s: the reclaimer waits for a file lock' % name, e, tr)
                    return
                for h in set(held.values()):
                    coll.notes.add('waits:' + h)
            elif k == 'sys' and unlocks(e) and committed is not None:
                for j, w, c in waits:
                    coll.bad('late?:%s:%s' % (name, c or 'send'), '%s: %s between its commit and unlocking the values committed, which readers wait for with locks held'
                             % (name, 'waits for the reclaimer' if c is None else 'takes ' + c), w, tr)
                coll.ok('committed', name)
        if reclaimer:
            coll.ok('reclaimer', name)
    return judge

def lockwait(e):
    if e.name == 'flock':
        return False
    return e.d.get('cmd') is I(38)

def unlocks(e):
    a = e.d.get('arg')
    return e.name == 'fcntl' and a is not None and a.op == 'agg' and a.a[2] and a.a[2][0] is I(2)

def jobs(ctx):
    P = ctx.prog()
    out = txlib.every_op(P, None)
    for j in out:
        g = set()
        if j.fn is not None:
            for t in j.fn['locals'][1:j.fn['argc'] + 1]:
                g |= guards(P, t)
        j.judge = judge_for(nice(j.name), initial=sorted(g))
    for s in check.spawned_closures(ctx):
        out.append(Job('reclaimer', judge=judge_for('reclaimer', reclaimer=True), closure=check.closure_job(s), cfg=dict(K=2, elem_total=2)))
    return out

def nice(n):
    return n.split('::')[-1]

def finish(ctx, res):
    edges, kept = {}, {}
    for k in [k for k in res.bad if k.startswith(('edge?:', 'late?:'))]:
        kept[k] = res.bad.pop(k)
        if k.startswith('edge?:'):
            a, b = cut(k[6:])
            edges.setdefault(a, {})[b] = kept[k]
    def reach(a, b, seen):
        for c in sorted(edges.get(a, {})):
            if c == b:
                return [a, c]
            if c not in seen:
                seen.add(c)
                r = reach(c, b, seen)
                if r:
                    return [a] + r
        return None
    done = set()
    for a in sorted(edges):
        r = reach(a, a, {a})
        if r and frozenset(r) not in done:
            done.add(frozenset(r))
            vs = [edges[x][y] for x, y in zip(r, r[1:])]
            v = dict(vs[-1])
            v['key'] = 'cycle:' + ' '.join(sorted(set(r)))
            v['msg'] = 'locks are taken in different orders: ' + '; '.join('%s at %s' % (x['msg'], x.get('where')) for x in vs)
            res.bad[v['key']] = v
    waits = {n[6:] for n in res.notes if n.startswith('waits:')}
    res.notes = {n for n in res.notes if not n.startswith('waits:')}
    held = set(waits)
    more = True
    while more:
        new = {a for a in edges if set(edges[a]) & held} - held
        held |= new
        more = bool(new)
    for k, v in kept.items():
        if k.startswith('late?:') and waits:
            c = k.split(':', 2)[2]
            if c == 'send' or c in held and not c.startswith('RwLock<Handle'):
                v['key'] = k.replace('?', '')
                res.bad[v['key']] = v

def cut(s):
    """A<..>>B<..> at the > between two class names"""
    d = 0
    for i, ch in enumerate(s):
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                return s[:i], s[i + 1:]
            d -= 1
    return s, ''
