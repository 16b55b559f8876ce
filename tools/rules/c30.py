from vlib.rulelib import *
from vlib import txlib
from vlib.txlib import scan

ID = 'C30'
RULE = '''
Every path of every operation that changes the manifest is enumerated.  In each transaction of such a path that writes
(any statement SQLite does not consider read-only) after having read, the transaction was begun Immediate or Exclusive, or
its very first statement is itself the write that takes the manifest's write lock.  No statement that writes is given a value
that a query of another transaction of the same operation returned.
'''
FLOORS = {'immediate': 20, 'write-first': 5}

def judge(name):
    def j(tr, coll):
        S_ = scan(tr)
        for t in S_.order:
            xs = [x for x in t.ex if x.e.op != 'prepare' and x.ok()]
            w = [x for x in xs if not x.readonly]
            if not w:
                continue
            own = {x.id for x in t.ex}
            for x in w:
                far = [S_.exs[c.a[0]] for p in x.params or () if isinstance(p, Term) for c in subterms(p) if c.op == 'col' and c.a[0] in S_.exs and c.a[0] not in own]
                if far:
                    coll.bad('other-tx:%s' % name, '%s: "%s" uses what "%s" read in another transaction, which can have changed since' % (name, x.desc(), far[0].desc()), x.e, tr)
            r = [x for x in xs if x.readonly and x.i < w[0].i]
            if t.begin is None:
                if r:
                    coll.bad('notx:' + name, '%s: writes on the basis of a read outside a transaction: %s' % (name, w[0].desc()), w[0].e, tr)
                continue
            if t.behavior in ('Immediate', 'Exclusive'):
                coll.ok('immediate', '%s: begin %s … %s' % (name, t.behavior, w[0].desc()))
            elif not r:
                coll.ok('write-first', '%s: begin %s; %s' % (name, t.behavior, w[0].desc()))
            else:
                coll.bad('deferred:%s:%s' % (name, w[0].desc()[:60]),
                         '%s: "%s" runs in a transaction begun %s, after it has read "%s" without the write lock' % (name, w[0].desc(), t.behavior, r[0].desc()), w[0].e, tr)
    return j

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, cfg=dict(K=2))
    key = mk('deref', mk('arg', 'key'))
    out.append(Job('read_single', need(P, 'Handle::read_single'), args=A('self', 'key'), cfg=txlib.SMALL))
    for n in ('possum_single_delete', 'possum_single_stat', 'possum_single_read_at', 'possum_list_items'):
        out.append(Job(n, need(P, 'ext:' + n), cfg=txlib.SMALL))
    out.append(Job('list_items', need(P, 'Handle::list_items')))
    for j in out:
        j.judge = judge(j.name)
    return out
