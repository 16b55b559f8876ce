import re
from vlib.rulelib import *
from vlib import txlib, models
from rules.c26 import subterms

ID = 'C18'
RULE = '''
On every path of every public operation (Rust and C), of every function that takes a bundle apart, and of the drop of every type that
owns a transaction and a lock guard: a lock is released only when everything that lives in what it protects has ended - the transactions
on the connection it protects, and the guards of locks inside of it - and the handle's reference count is let go of only after the guards
inside of it.  Nothing is executed on a connection, and no lock inside of protected data is taken, once its guard was released, and no
reference into protected data is returned or stored past the release.  Wherever a reference outlives the borrow it comes from (through a
raw pointer made from Deref on a value that is moved afterwards), the value's type keeps its target at a stable address.
'''
FLOORS = {'tx-before-unlock': 8, 'nested-guard': 2, 'held': 10, 'count': 1, 'bundle': 3, 'stable': 2, 'drop': 2}
ASSUME = ['a transaction that is leaked is never ended; nothing in the crate leaks one', 'unwinding drops in the same order as returning']

STABLE = re.compile(r'^(&|std::(boxed::Box|rc::Rc|sync::Arc|vec::Vec|string::String|path::PathBuf|sync::MutexGuard|sync::RwLockReadGuard|sync::RwLockWriteGuard|cell::Ref|cell::RefMut)\b)')

def rank(n):
    """what depends on what: a transaction on its connection's guard, that on the handle's guard, and that on the handle's count"""
    if n is None:
        return None
    if re.match(r'rusqlite::(Transaction|Savepoint)', n):
        return 0
    if re.match(r'std::sync::\w+Guard<.*Connection', n):
        return 1
    if re.match(r'(std::rc::Rc<)?std::sync::RwLock\w+Guard<.*Handle', n):
        return 2
    if re.match(r'std::sync::Arc<std::sync::RwLock<.*Handle', n):
        return 3
    return None

RANKS = ['transaction', 'connection lock', 'handle lock', 'handle count']

def place(e):
    return (e.d['loc'], tuple(e.d['pr']))

def inside(p, g):
    """is the location p within what the lock at g protects?"""
    return p[0] is g[0] and len(p[1]) > len(g[1]) and strip(p[1][:len(g[1])]) == strip(g[1]) and p[1][len(g[1])][0] == 'inner'

def strip(pr):
    return tuple(x[:2] for x in pr)

def rootarg(t):
    """the argument a symbolic value comes from"""
    while isinstance(t, Term):
        if t.op == 'arg':
            return t.a[0]
        nxt = [x for x in t.a if isinstance(x, Term)]
        if not nxt:
            return None
        t = nxt[0]
    return None

def judge_for(name, script=False):
    def judge(tr, coll):
        held = {}            # lock id -> (place, event)
        done = []            # places of released locks
        txs = {}             # tx -> place of its connection
        last = {}            # (arg, rank) -> index of the last release
        uses = []            # (i, arg, rank, event, what)
        counts = {}
        for i, e in enumerate(tr.events):
            k = e.k
            if k == 'lock':
                p = place(e)
                for q, r in done:
                    if inside(p, q) and not any(inside(p, g) and strip(g[1]) == strip(q[1]) for g, _ in held.values()):
                        coll.bad('%s:relock:%s' % (name, short(e.cls)), '%s: locks %s, which lives in data whose lock was released before' % (name, short(e.cls)), e, tr)
                        return
                held[e.id] = (p, e)
                done = [(q, r) for q, r in done if not (q[0] is p[0] and strip(q[1]) == strip(p[1]))]
                if any(inside(p, g) for j, (g, _) in held.items() if j != e.id):
                    coll.ok('held', 'lock')
            elif k == 'unlock':
                h = held.pop(e.id, None)
                if h is None:
                    r = rank(e.d.get('ty'))
                    if r is not None and isinstance(e.id, Term):
                        last[(rootarg(e.id), r)] = i
                        uses.append((i, rootarg(e.id), r, e, 'released'))
                    continue
                for j, (p, e2) in held.items():
                    if inside(p, h[0]):
                        coll.bad('%s:outlived:%s' % (name, short(e2.cls)), '%s: releases %s while the guard of %s, which lives inside of it, is held'
                                 % (name, short(h[1].cls), short(e2.cls)), e, tr)
                        return
                for t, p in txs.items():
                    if inside(p, h[0]):
                        coll.bad('%s:open' % name, '%s: releases %s while a transaction on the connection is not ended' % (name, short(h[1].cls)), e, tr)
                        return
                if any(inside(p2, h[0]) for p2, _ in done):
                    coll.ok('nested-guard', name)
                done.append((h[0], h[1]))
                if 'Connection' in h[1].cls:
                    coll.ok('tx-before-unlock', name)
            elif k == 'begin' and e.outcome == 'ok':
                p = (e.d['loc'], tuple(e.d['pr'])) if 'loc' in e.d else None
                if p is not None and any(x[0] == 'inner' for x in p[1]):
                    if not any(inside(p, g) for g, _ in held.values()):
                        coll.bad('%s:begin' % name, '%s: starts a transaction on a connection whose lock is not held' % name, e, tr)
                        return
                    if not e.d.get('raw'):
                        txs[e.tx] = p
                    coll.ok('held', 'begin')
            elif k in ('commit', 'rollback', 'txdrop') and not e.d.get('raw'):
                if e.tx in txs:
                    del txs[e.tx]
                elif e.tx.op != 'tx':
                    a = rootarg(e.tx)
                    last[(a, 0)] = i
                    uses.append((i, a, 0, e, 'ended'))
            elif k == 'exec':
                if e.conn.op != 'tx' and rootarg(e.conn) is not None:
                    uses.append((i, rootarg(e.conn), 0, e, 'used'))
            elif k == 'arcclone':
                counts[e.v] = counts.get(e.v, 0) + 1
            elif k == 'arcdrop':
                v, r = e.v, rank(e.d.get('ty'))
                a = rootarg(v)
                if r is not None:
                    last[(a, r)] = i
                    uses.append((i, a, r, e, 'released'))
                if r == 3:
                    counts[v] = counts.get(v, 0) - 1
                    if counts[v] < (1 if script else 0):
                        for p, e2 in held.values():
                            if p[0].op == 'O' and p[0].a[0] is v:
                                coll.bad('%s:count' % name, '%s: lets go of the handle while the guard of %s, which is inside of it, is held' % (name, short(e2.cls)), e, tr)
                                return
                        coll.ok('count', name)
        # objects of one bundle that came in as an argument
        for i, a, r, e, what in uses:
            for s in range(r + 1, 4):
                j = last.get((a, s))
                if s == 2 and (a, 3) not in last:
                    continue          # a share of the handle's guard; the bundle's own is not part of this
                if j is not None and j < i:
                    coll.bad('%s:bundle:%d-%d' % (name, r, s), '%s: the %s is %s after the %s it depends on was let go of' % (name, RANKS[r], what, RANKS[s]), e, tr)
                    return
            if any((a, s) in last for s in range(r + 1, 4)):
                coll.ok('bundle', name)
                if name.startswith('drop of'):
                    coll.ok('drop', name)
        # what comes out
        if tr.outcome == 'ret':
            outs = [tr.value] + [e.v for e in tr.events if e.k == 'store' and isinstance(e.d.get('v'), Term)]
            gone = [q for q, r in done if not any(g[0] is q[0] and strip(g[1]) == strip(q[1]) for g, _ in held.values())]
            if gone:
                for v in outs:
                    for t in subterms(tr.I.resolve(tr.st, v) if isinstance(v, Term) else v):
                        if t.op == 'ref' and isinstance(t.a[1], tuple) and any(inside((t.a[0], t.a[1]), q) for q in gone):
                            coll.bad('%s:escape' % name, '%s: hands out a reference into data whose lock was released' % name, None, tr)
                            return
                        if t.op == 'tx' and t in txs and any(inside(txs[t], q) for q in gone):
                            coll.bad('%s:escape-tx' % name, '%s: hands out a transaction on a connection whose lock was released' % name, None, tr)
                            return
    return judge

def short(cls):
    return re.sub(r'\b(\w+::)+', '', cls).lstrip('&')

def owned(P, t, seen=None):
    """names of the guards and transactions a type owns"""
    seen = set() if seen is None else seen
    if t is None or t < 0 or t in seen:
        return set()
    seen.add(t)
    T = P.T[t]
    out = set()
    if T['k'] == 'adt':
        r = rank(T['n'])
        if r is not None:
            out.add(r)
        if T.get('local'):
            for v in T['variants']:
                for _, ft in v['f']:
                    out |= owned(P, ft, seen)
        elif not re.match(r'std::(marker::PhantomData|mem::ManuallyDrop|sync::Weak|rc::Weak)', T['path']) and r is None:
            for x in T['targs']:
                out |= owned(P, x, seen)
    elif T['k'] == 'tuple':
        for x in T['ts']:
            out |= owned(P, x, seen)
    return out

def droptypes(P):
    for i, T in enumerate(P.T):
        if T['k'] == 'adt' and T.get('local') and T['kind'] == 'struct' and T['variants']:
            o = owned(P, i)
            if 0 in o and o & {1, 2, 3} - {0} and 1 in o:
                yield i, T

def drop_script(i):
    def mk_(P):
        def go(I_, st, env):
            return ('drop', lambda I2, st2, *a: models.drop_seq(I2, st2, [('d', mk('ref', mk('O', mk('arg', 'bundle')), ()), i)]))
        return [go]
    return mk_

def jobs(ctx):
    P = ctx.prog()
    out = txlib.every_op(P, None)
    for j in out:
        j.judge = judge_for(nice(j.name), script=j.script is not None)
    for i, T in droptypes(P):
        n = 'drop of ' + short(re.sub(r"'\w+,? ?", '', T['n']))[:80]
        out.append(Job(n, None, script=drop_script(i), judge=judge_for(n)))
    return out

def nice(n):
    return re.sub(r'<.*?>+', '', n.replace('<&', '&'))[:60] if '<' in n else n

def static(ctx, coll):
    """raw pointers made from Deref on a value that is then moved: the value's type must keep its target in place"""
    P = ctx.prog()
    for f in P.F:
        if 'blocks' not in f or not P.local(f):
            continue
        unstable(P, f, coll)

def unstable(P, f, coll):
    borrowed = {}       # local holding &x -> x
    targets = {}        # local pointing to deref(x) -> (x, inst)
    raw = {}            # local raw pointer -> (x, inst)
    rebound = {}        # x -> (inst, span) : a reference was made from the raw pointer
    moved = set()
    for _ in range(2):
        for b in f['blocks']:
            if b is None:
                continue
            for s in b['s']:
                if s[0] != '=':
                    continue
                d, rv = s[1], s[2]
                if rv[0] == 'ref' and len(rv) > 2:
                    src, kind = rv[1], rv[2]
                    if not src[1] and not d[1]:
                        borrowed[d[0]] = src[0]
                    elif src[1] == [['*']] and not d[1]:
                        if src[0] in targets and kind == 2:
                            raw[d[0]] = targets[src[0]]
                        elif src[0] in targets:
                            targets[d[0]] = targets[src[0]]
                        elif src[0] in borrowed and kind != 2:
                            borrowed[d[0]] = borrowed[src[0]]
                        elif src[0] in raw and kind != 2:
                            rebound[raw[src[0]][0]] = (raw[src[0]][1], b.get('sp'))
                        elif src[0] in raw:
                            raw[d[0]] = raw[src[0]]
                elif rv[0] in ('use', 'cast') and not d[1]:
                    for o in rv[1:]:
                        if isinstance(o, list) and o and o[0] in ('mv', 'cp') and not o[1][1]:
                            x = o[1][0]
                            for m in (borrowed, targets, raw):
                                if x in m:
                                    m[d[0]] = m[x]
                for o in ops_of(rv):
                    if o[0] == 'mv' and not o[1][1]:
                        moved.add(o[1][0])
            t = b['t']
            if t and t[0] == 'call':
                c, args, dest = t[1], t[2], t[3]
                if c.get('def') in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut') and args and args[0][0] in ('mv', 'cp') and not args[0][1][1] and not dest[1]:
                    x = borrowed.get(args[0][1][0])
                    if x is not None:
                        targets[dest[0]] = (x, c.get('inst'))
                for o in args:
                    if o[0] == 'mv' and not o[1][1]:
                        moved.add(o[1][0])
    for x, (inst, sp) in rebound.items():
        if x not in moved:
            continue
        ty = P.T[f['locals'][x]]
        name = short(ty.get('n', '?'))
        where = '%s' % re.sub(r'::<.*', '', f['name'])
        if stable(P, ty, inst):
            coll.ok('stable', '%s: %s' % (where, name))
        else:
            coll.bad('unstable:%s' % name, '%s: keeps a reference to the target of a %s that is moved afterwards, and whose target moves along' % (where, name), None, None)

def ops_of(rv):
    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('mv', 'cp') and isinstance(x[1], list):
                yield x
            else:
                for y in x:
                    yield from walk(y)
    return list(walk(rv))

def stable(P, ty, inst, seen=()):
    n = ty.get('n', '')
    if ty['k'] == 'ref' or STABLE.match(n):
        return True
    if inst is None or inst < 0 or 'blocks' not in P.F[inst] or inst in seen:
        return False
    # a Deref of the crate: its result must go through a pointer or another stable Deref
    g = P.F[inst]
    for b in g['blocks']:
        if b and b['t'] and b['t'][0] == 'call' and b['t'][1].get('def') in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut'):
            i2 = b['t'][1].get('inst')
            ta = b['t'][1].get('targs') or []
            if ta and stable(P, P.T[ta[0]], i2, seen + (inst,)):
                return True
    return False
