from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.txlib import scan, colref, known_cols, succeeded

ID = 'C08'
RULE = '''
On every path of a lookup (Reader::add alone, and through whole reads by the Rust and C interfaces) that returns a value,
either the row of exactly the looked-up key is updated with last_used = current time (milliseconds) and the reported time is
the column that update returned, or the last use read from the row is known to equal the current time column of the same
statement.  A read that reports success has committed such an update.  No statement of any other operation sets last_used,
an insert leaves it to the schema's default (the same current-time expression), and no trigger touches it.
'''
FLOORS = {'refresh': 4, 'current': 2, 'durable': 2, 'default': 1, 'others': 20}
NOW = ('cast', ('bin', '*', ('fn', 'unixepoch', (('lit', 'subsec'),)), ('lit', 1000)), 'integer')

def is_now(e):
    e = sqlan.norm(e)
    return e == sqlan.norm(NOW)

def touches(s):
    return s['k'] == 'update' and s['table'] == 'keys' and 'last_used' in [c for c, _ in s['set']]

def static(ctx, coll):
    sch, _ = txlib.schema(ctx)
    k = txlib.table(sch, 'keys')
    c = [c for c in k['cols'] if c['name'] == 'last_used']
    if not c or c[0]['default'] is None or not is_now(c[0]['default']):
        coll.bad('default', 'the default of keys.last_used is not the current time in milliseconds')
    else:
        coll.ok('default', 'last_used default cast(unixepoch(subsec)*1e3 as integer)')
    for s in sch:
        if s['k'] == 'trigger' and any(isinstance(b, dict) and touches(b) for b in s['body']):
            coll.bad('trigger:' + s['name'], 'trigger %s changes last_used' % s['name'])

def check_touch(x, key, coll, tr):
    """an update of last_used must be of exactly this key, to now"""
    s = x.s
    ok = True
    cs = sqlan.conjuncts(s['where']) if s['where'] else frozenset()
    kp = x.where_param('key')
    extra = [c for c in cs if not (c[0] == 'bin' and c[1] in ('=', 'is') and c[2] == ('col', 'key'))]
    if kp is None or extra:
        coll.bad('touch-where', 'the update of last_used is not restricted to exactly the looked-up key: ' + x.desc(), x.e, tr)
        ok = False
    elif key is not None and kp is not key:
        coll.bad('touch-key', 'the update of last_used is made for %s, not for the looked-up key' % show(kp), x.e, tr)
        ok = False
    if [c for c, _ in s['set']] != ['last_used'] or not is_now(s['set'][0][1]) or s.get('or'):
        coll.bad('touch-now', 'the update of last_used sets something other than the current time: ' + x.desc(), x.e, tr)
        ok = False
    return ok

def others(name, tr, coll, S_):
    for t in S_.order:
        for x in t.ex:
            for s in x.sts or ():
                if touches(s):
                    coll.bad('other:%s:%s' % (name, x.desc()[:60]), '%s changes last_used: %s' % (name, x.desc()), x.e, tr)
                elif s['k'] == 'insert' and s['table'] == 'keys' and (s['cols'] is None or 'last_used' in s['cols']):
                    coll.bad('insert:%s' % name, '%s inserts a row with an explicit last_used: %s' % (name, x.desc()), x.e, tr)
                else:
                    coll.ok('others')

def judge_other(name):
    return lambda tr, coll: others(name, tr, coll, scan(tr))

def lookup(v):
    """the Value inside a successful lookup's result"""
    k, x = vkind(v)
    if k != 'ok':
        return None
    o, y = optkind(x)
    return y if o == 'some' else None

def judge_add(name, key):
    def j(tr, coll):
        S_ = scan(tr)
        touched = []
        for t in S_.order:
            for x in t.ex:
                if x.s and x.e.op != 'prepare' and touches(x.s):
                    if check_touch(x, key, coll, tr) and x.outcome in ('row', 'done'):
                        touched.append(x)
        if tr.outcome != 'ret':
            return
        v = lookup(tr.value)
        if v is None:
            return
        P = tr.I.P
        n = txlib.structf(P, 'possum::Value') if False else txlib.structf(P, 'Value')
        if v.op != 'agg' or 'last_used' not in n:
            coll.bad('shape', 'the value a lookup returns is not understood: %s' % show(v), None, tr)
            return
        report(tr, S_, touched, v.a[2][n['last_used']], coll, name)
    return j

def report(tr, S_, touched, lu, coll, name):
    refs = {x.a[:3] for x in subterms(lu) if x.op == 'col'}
    if len(refs) != 1:
        coll.bad('report', '%s: the reported last use (%s) is not a column of the manifest' % (name, show(lu)), None, tr)
        return
    (i, k, idx), = refs
    x = S_.exs.get(i)
    if touched:
        u = touched[-1]
        if x is u and u.names[idx:idx + 1] == ['last_used']:
            coll.ok('refresh', '%s: %s' % (name, u.desc()))
            return
        coll.bad('report-old', '%s: reports %s as the last use although it was just updated' % (name, x.desc() if x else lu), u.e, tr)
        return
    # not updated: must be known to be current already
    if x is None or x.k != 'select' or x.names[idx:idx + 1] != ['last_used']:
        coll.bad('report-other', '%s: the reported last use is not the row\'s' % name, x.e if x else None, tr)
        return
    nows = [n for n, c in enumerate(x.s['cols']) if is_now(c)]
    for f, v in tr.facts.items():
        if isinstance(f, Term) and f.op in ('eq0', 'eqv') and v is True:
            cs = {t.a[:3] for t in subterms(f) if t.op == 'col'}
            if (i, k, idx) in cs and any((i, k, n) in cs for n in nows) and len(cs) == 2 and (f.op == 'eqv' or lin_of(f.a[0])[0] == 0):
                coll.ok('current', name)
                return
    coll.bad('stale', '%s: a lookup returns a value without recording its use now' % name, x.e, tr)

def judge_read(name, key):
    """a whole read: the update is of that key, in the transaction committed when success is reported"""
    def j(tr, coll):
        S_ = scan(tr)
        for t in S_.order:
            for x in t.ex:
                if x.s and x.e.op != 'prepare' and touches(x.s):
                    if not check_touch(x, key, coll, tr):
                        continue
                    if tr.outcome == 'ret' and succeeded(tr) and x.outcome in ('row', 'done') and not (name == 'single' and optkind(vkind(tr.value)[1])[0] == 'none'):
                        if t.commit is None or t.commit < x.i:
                            coll.bad('durable:' + name, '%s: succeeds without committing the recorded use' % name, x.e, tr)
                        else:
                            coll.ok('durable', name)
    return j

def jobs(ctx):
    P = ctx.prog()
    key = mk('deref', mk('arg', 'key'))
    out = []
    for n, f in enumerate(txlib.fnnamed(P, 'Reader::add')):
        out.append(Job('add/%d' % n, f, args=A('self', 'key'), judge=judge_add('Reader::add', key), maxfail=2))
    out.append(Job('read_single', need(P, 'Handle::read_single'), args=A('self', 'key'), judge=judge_read('single', key), cfg=txlib.SMALL))
    out.append(Job('read', None, script=txlib.read_script(1), judge=judge_read('read', mk('deref', mk('arg', 'key0'))), cfg=txlib.SMALL))
    out.append(Job('c-read', None, script=txlib.c_read_script(1), judge=judge_read('c-read', None), cfg=txlib.SMALL))
    w = txlib.write_roots(P, reads=False, cfg=dict(K=2), kinds=('delete', 'rename', 'move-prefix', 'delete-prefix', 'set-limits', 'commit'))
    for n in ('Handle::list_items', 'Handle::cleanup_snapshots'):
        w.append(Job(n, need(P, n)))
    for f in txlib.fnnamed(P, 'Reader::list_items'):
        w.append(Job('Reader::list_items', f))
    for n in ('possum_list_items', 'possum_reader_list_items', 'possum_reader_new'):
        w.append(Job(n, need(P, 'ext:' + n)))
    for j in w:
        j.judge = judge_other(j.name)
        if j.name == 'commit':
            j.prune = txlib.quiet_send
            j.cfg = dict(K=2, elem_total=1)
    return out + w
