from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.txlib import scan

ID = 'C07'
RULE = '''
The schema run when a manifest is created must keep sums['value_length'] equal to the sum of keys.value_length: an
initial row, one unconditional trigger per insert that adds new.value_length, one per delete that subtracts
old.value_length, and one for updates of value_length if any statement does that.  No other statement on any path of any
root writes sums, changes value_length, removes rows in a way that does not fire triggers (conflict replacement), or
turns triggers off; and the total used for the limit is read from that row.
'''
FLOORS = {'trigger-insert': 1, 'trigger-delete': 1, 'initial': 1, 'statement': 20}
KEY = frozenset({('bin', '=', ('col', 'key'), ('lit', 'value_length'))})

def static(ctx, coll):
    sch, sets = txlib.schema(ctx)
    k = txlib.table(sch, 'keys')
    txlib.table(sch, 'sums')
    vl = [c for c in k['cols'] if c['name'] == 'value_length']
    if not vl or not vl[0]['notnull'] or vl[0]['type'] not in ('integer', 'int'):
        coll.bad('schema:value_length', 'keys.value_length is not an integer that cannot be null')
    eff = {'insert': [], 'delete': [], 'update': []}
    for s in sch:
        if s['k'] == 'trigger':
            body = s['body']
            good = False
            if s['table'] == 'keys' and s['cond'] is None and len(body) == 1 and body[0]['k'] == 'update' and body[0]['table'] == 'sums' and not body[0].get('or'):
                b = body[0]
                if sqlan.conjuncts(b['where']) == KEY and len(b['set']) == 1 and b['set'][0][0] == 'value':
                    eff[s['event']].append(sign(b['set'][0][1]))
                    good = True
            if not good and any(x.get('table') in ('sums', 'keys') for x in body if isinstance(x, dict) and x['k'] != 'select'):
                coll.bad('trigger:' + s['name'], 'trigger %s changes sums or keys in a way that is not the accounting of value_length' % s['name'])
        elif s['k'] == 'insert' and s['table'] == 'sums':
            r = s['rows'][0] if s.get('rows') else ()
            if len(r) == 2 and r[0] == ('lit', 'value_length') and (r[1] == ('lit', 0) or "'sum', (('col', 'value_length'),)" in repr(r[1]) and "'where': None" in repr(r[1])):
                coll.ok('initial', 'insert into sums values (value_length, …)')
            else:
                coll.bad('initial', 'the running total does not start as the sum of the value lengths')
        elif s['k'] in ('update', 'delete') and s['table'] in ('sums', 'keys') or s['k'] in ('other', 'drop'):
            coll.bad('schema:' + s['k'], 'the schema script contains an unexpected statement: %s' % (s,))
    if eff['insert'] == [{'new': 1}]:
        coll.ok('trigger-insert', 'value + new.value_length')
    else:
        coll.bad('trigger-insert', 'inserting a row changes the running total by %s instead of by its value_length' % (eff['insert'],))
    if eff['delete'] == [{'old': -1}]:
        coll.ok('trigger-delete', 'value - old.value_length')
    else:
        coll.bad('trigger-delete', 'deleting a row changes the running total by %s instead of by minus its value_length' % (eff['delete'],))
    ctx.update_trigger = eff['update'] == [{'new': 1, 'old': -1}]
    if eff['update'] and not ctx.update_trigger:
        coll.bad('trigger-update', 'an update trigger changes the running total by %s' % (eff['update'],))
    for r in sets:
        if 'dbconfig' in r and 'RESET_DATABASE' not in r:
            coll.bad('dbconfig', 'a connection setting that may turn triggers off: %s' % r)

def sign(e):
    """value ± … as a multiset of old/new value_length"""
    out = {}
    def go(x, k):
        if x[0] == 'bin' and x[1] in '+-':
            go(x[2], k)
            go(x[3], k if x[1] == '+' else -k)
        elif x[0] == 'col' and len(x) > 2 and x[1] == 'value_length' and x[2] in ('old', 'new'):
            out[x[2]] = out.get(x[2], 0) + k
        elif x[0] == 'col' and x[1] == 'value' and k == 1:
            out['value'] = out.get('value', 0) + 1
        else:
            out['?'] = 1
    go(e, 1)
    if out.pop('value', 0) != 1:
        out['?'] = 1
    return out

def judge(name, update_trigger):
    def j(tr, coll):
        S_ = scan(tr)
        for t in S_.order:
            for x in t.ex:
                if x.text is None and x.e.op == 'prepare':
                    continue
                if x.sts is None:
                    coll.bad('sql:' + x.desc()[:80], 'statement not understood: ' + x.desc(), x.e, tr)
                    continue
                for s in x.sts:
                    tb = s.get('table')
                    if s['k'] in ('insert', 'update', 'delete'):
                        if tb == 'sums':
                            coll.bad('sums:' + x.desc()[:80], 'a statement writes the running total directly: ' + x.desc(), x.e, tr)
                        elif tb == 'keys' and s['k'] == 'update' and 'value_length' in [c for c, _ in s['set']] and not update_trigger:
                            coll.bad('length:' + x.desc()[:80], 'changes the length of a value behind the back of the accounting: ' + x.desc(), x.e, tr)
                        elif tb == 'keys' and (s.get('or') == 'replace' or s.get('upsert')):
                            coll.bad('replace:' + x.desc()[:80], 'replaces rows, which does not fire delete triggers: ' + x.desc(), x.e, tr)
                        else:
                            coll.ok('statement', x.desc())
                    elif s['k'] not in ('select', 'pragma', 'begin', 'commit', 'rollback', 'vacuum', 'savepoint', 'release'):
                        coll.bad('schema-change:' + x.desc()[:80], 'an operation changes the schema: ' + x.desc(), x.e, tr)
        for e in evs(tr, 'dbconfig'):
            coll.bad('dbconfig', 'an operation changes the connection configuration: %r' % e, e, tr)
    return j

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, cfg=dict(K=2), kinds=('delete', 'rename', 'move-prefix', 'delete-prefix', 'set-limits', 'commit', 'c-read', 'read'))
    for n in ('Handle::list_items', 'Handle::cleanup_snapshots'):
        out.append(Job(n, need(P, n)))
    for j in out:
        j.judge = judge(j.name, getattr(ctx, 'update_trigger', False))
        if j.name == 'commit':
            j.prune = txlib.quiet_send
            j.cfg = dict(K=2, elem_total=1)
    return out
