from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.txlib import scan, succeeded, known_cols, rowcol

ID = 'C06'
RULE = '''
On every path of every manifest-changing operation, a transaction that changed anything and commits must have decided, in
that transaction: no limit is set; or the running total, read after the last statement that can increase it, is at most
the limit.  A statement that removes rows without being told which (an eviction) must remove exactly the least recently
used row of the whole table, and only while the total read minus what was evicted since still exceeds the limit.
The total is not read over and over (three times in a row) with no change in between, which would never end.
Setting the limits must make and commit such a decision with the new limit before it reports success.
'''
FLOORS = {'no-limit': 10, 'within-limit': 10, 'evict-order': 10, 'evict-needed': 10, 'set-limits': 2}

def is_total(x):
    s = x.s
    if not s or s['k'] != 'select' or len(s['cols']) != 1:
        return False
    c = sqlan.norm(s['cols'][0])
    if [f[0] for f in s['from']] == ['sums']:
        return c == ('col', 'value') and sqlan.conjuncts(s['where']) == frozenset({('bin', '=', ('col', 'key'), ('lit', 'value_length'))})
    if [f[0] for f in s['from']] == ['keys'] and s['where'] is None:
        return 'sum' in repr(c) and ('col', 'value_length') in list(sqlan.walk(c))
    return False

def lru_where(x):
    """delete … where key_id in (select key_id from keys order by last_used … limit 1)"""
    if x.k != 'delete' or x.s['table'] != 'keys' or not x.s['where']:
        return False
    cs = txlib.sqlan_raw_conj(x.s['where'])
    if len(cs) != 1:
        return False
    c = cs[0]
    sel = c[2] if c[0] == 'in' and isinstance(c[2], dict) and c[1] in (('col', 'key_id'), ('col', 'rowid')) else None
    if sel is None and c[0] == 'bin' and c[1] == '=' and c[2] in (('col', 'key_id'), ('col', 'rowid')) and isinstance(c[3], tuple) and c[3][0] == 'sub':
        sel = c[3][1]
    return bool(sel and sel['k'] == 'select' and sel['cols'] == (c[1],) and [f[0] for f in sel['from']] == ['keys'] and sel['where'] is None
                and sel['limit'] == ('lit', 1) and sel['order'] and sel['order'][0] == (('col', 'last_used'), 'asc'))

def judge(name):
    def j(tr, coll):
        P = tr.I.P
        S_ = scan(tr)
        im = txlib.structf(P, 'handle::Limits').get('max_value_length_sum')
        il = txlib.field_of_type(P, 'handle::Handle', 'Limits')
        old, new = [], []
        for f, v in tr.facts.items():
            if isinstance(f, Term) and f.op == 'discr' and f.a[0].op == 'fld' and f.a[0].a[1] == im:
                X = f.a[0].a[0]
                if X.op == 'fld' and X.a[1] == il:
                    old.append((f.a[0], v))
                elif X is mk('arg', 'limits'):
                    new.append((f.a[0], v))
        climit = mk('fld', mk('deref', mk('arg', 'limits')), txlib.structf(P, 'PossumLimits')['max_value_length_sum'])
        cands, none = [], False
        use = new if name in ('set-limits',) else old
        for t, v in use:
            if v == 1:
                cands.append(mk('fld', mk('as', t, 1), 0))
            elif v == 0:
                none = True
        if name == 'c-set-limits':
            d = tr.I.decide(tr.st, eq(climit, I((1 << 64) - 1)))
            if d is True:
                none = True
            elif d is False:
                cands.append(climit)
            if tr.facts.get(mk('discr', climit)) == (1 << 64) - 1:
                none = True
            elif isinstance(tr.facts.get(mk('discr', climit)), frozenset):
                cands.append(climit)
        cols = known_cols(tr)
        for t in S_.order:
            totals = [(x, cols.get((x.id, 0, 0))) for x in t.ex if is_total(x) and x.outcome == 'row']
            ev = []
            for (y, _), (_, _), (z, _) in zip(totals, totals[1:], totals[2:]):
                if not any(y.i < x.i < z.i and x.content() for x in t.ex):
                    coll.bad('again:' + name, '%s: adds up the values again though it has changed nothing since it last did, and can do so for ever' % name, z.e, tr)
                    break
            for x in t.ex:
                if x.k in ('delete', 'update') and x.s['table'] == 'keys' and x.where_param('key') is None and x.where_param('file_id') is None and x.outcome != 'err' and x.k == 'delete':
                    # an eviction
                    if not lru_where(x):
                        coll.bad('evict-order:' + x.desc()[:70], 'evicts something other than the least recently used row: ' + x.desc(), x.e, tr)
                        continue
                    coll.ok('evict-order', x.desc())
                    before = [(y, T) for y, T in totals if y.i < x.i]
                    good = False
                    if before and cands:
                        y, T = before[-1]
                        gone = I(0)
                        known = T is not None
                        for z in ev:
                            if z.i > y.i:
                                c = cols.get(rowcol(z, 0, 'value_length') or ())
                                if z.outcome == 'row':
                                    if c is None:
                                        known = False
                                    elif tr.I.decide(tr.st, eq0(c)) is not True:
                                        gone = add(gone, c)
                        if known:
                            good = any(tr.I.decide(tr.st, lt(gone, sub(T, m))) is True or tr.I.decide(tr.st, lt(m, sub(T, gone))) is True for m in cands)
                    if not good:
                        coll.bad('evict-needed', '%s: evicts although the total is not known to exceed the limit' % name, x.e, tr)
                    else:
                        coll.ok('evict-needed')
                    ev.append(x)
            if t.commit is None:
                continue
            writes = [x for x in t.ex if x.ok() and not x.readonly and x.outcome != 'norows' and x.e.op != 'prepare']
            if not writes and name not in ('set-limits', 'c-set-limits'):
                continue
            if none:
                coll.ok('no-limit')
                ok = True
            else:
                grow = [x for x in writes if x.k not in ('delete',) and x.content() and not (x.k == 'update' and 'value_length' not in x.sets())]
                last = max([x.i for x in grow], default=-1)
                ok = any(T is not None and x.i > last and any(tr.I.decide(tr.st, lt(m, T)) is False for m in cands) for x, T in totals)
                if ok:
                    coll.ok('within-limit', '%s: total at most the limit when committing' % name)
                else:
                    coll.bad('limit:' + name, '%s: commits without having made sure that the total is within the limit' % name, tr.events[t.commit], tr)
            if ok and name in ('set-limits', 'c-set-limits'):
                coll.ok('set-limits')
        if name in ('set-limits', 'c-set-limits') and tr.outcome == 'ret' and succeeded(tr):
            if not any(t.commit is not None for t in S_.order):
                coll.bad('set:' + name, '%s: succeeds without applying the new limits' % name, None, tr)
    return j

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, kinds=('delete', 'rename', 'move-prefix', 'delete-prefix', 'set-limits', 'commit', 'c-read', 'read'))
    out.append(Job('c-set-limits', need(P, 'ext:possum_set_instance_limits'), args=A('handle', 'limits')))
    for j in out:
        j.judge = judge(j.name)
        if j.name in ('commit',):
            j.prune = txlib.quiet_send
            j.cfg = dict(elem_total=1)
    return out
