from vlib.rulelib import *
from vlib import txlib
from vlib.txlib import scan

ID = 'C20'
RULE = '''
On every path of the reclaimer thread its database connection is opened with SQLITE_OPEN_READ_ONLY (and without the
read-write or create flags) and every statement run on it is one SQLite considers read-only.  On every path of listing and
of each query of the read-only transaction interface all statements are read-only, the transaction is begun Deferred and is
never committed with writes.  Whenever opening a directory (re)creates the manifest, write-ahead logging is the last
journal mode set, so a reader neither waits for nor blocks the writer.
'''
FLOORS = {'readonly-open': 5, 'reclaimer-statement': 4, 'listing': 4, 'query': 4, 'wal': 1}
RO, RW, CREATE = 1, 2, 4

def nowrite(name, rule, tr, coll, deferred=True):
    S_ = scan(tr)
    for t in S_.order:
        if t.begin is not None and t.behavior != 'Deferred' and deferred:
            coll.bad('lock:' + name, '%s takes the manifest\'s write lock (begin %s)' % (name, t.behavior), tr.events[t.begin], tr)
    for x in [x for t in S_.order for x in t.ex] + S_.loose:
        if x.sts and all(s['k'] in ('rollback', 'begin', 'commit', 'end') for s in x.sts):
            if any(s['k'] == 'begin' and set(s['rest']) & {'immediate', 'exclusive'} for s in x.sts):
                coll.bad('relock:' + name, '%s takes the manifest\'s write lock: %s' % (name, x.desc()), x.e, tr)
            continue
        if not x.readonly:
            coll.bad('write:%s:%s' % (name, x.desc()[:60]), '%s can write the manifest: %s' % (name, x.desc()), x.e, tr)
        else:
            coll.ok(rule, '%s: %s' % (name, x.desc()))
    for e in evs(tr, 'dbconfig'):
        coll.bad('dbconfig:' + name, '%s reconfigures the manifest' % name, e, tr)
    for e in evs(tr, 'pragma'):
        if e.d.get('value') is not None:
            coll.bad('pragma:' + name, '%s sets a pragma on the manifest' % name, e, tr)

def judge_ro(name, rule):
    return lambda tr, coll: nowrite(name, rule, tr, coll)

def flags_of(t):
    """the flag bits of a union of constant flags; None if not all are constants"""
    if not isinstance(t, Term):
        return None
    r = 0
    for x in (t.a[0] if t.op == 'oflags' else (t,)):
        while x.op == 'agg' and len(x.a[2]) == 1:
            x = x.a[2][0]
        if x.op != 'int':
            return None
        r |= x.a[0]
    return r

def judge_puncher(tr, coll):
    opened = False
    for e in tr.events:
        if e.k == 'sqlopen':
            fl = flags_of(e.flags)
            if fl is None:
                coll.bad('open-flags', 'the reclaimer opens the manifest without (known) read-only flags: %s' % (show(e.flags) if isinstance(e.flags, Term) else 'default flags'), e, tr)
            elif not fl & RO or fl & (RW | CREATE):
                coll.bad('open-flags', 'the reclaimer opens the manifest with flags %#x, not read-only' % fl, e, tr)
            else:
                coll.ok('readonly-open')
    nowrite('the reclaimer', 'reclaimer-statement', tr, coll)

def judge_open(tr, coll):
    made = any(e.k == 'exec' and e.sql.op == 'str' and b'create table' in e.sql.a[0].lower() and e.outcome != 'err' for e in tr.events)
    if tr.outcome != 'ret' or vkind(tr.value)[0] != 'ok':
        return
    last = None
    for e in tr.events:
        if e.k == 'pragma' and pragma_name(e) == 'journal_mode' and pragma_val(e) is not None:
            last = e
    if made:
        if last is None or pragma_val(last) != 'wal':
            coll.bad('wal', 'a manifest is created and left in journal mode %s: readers and writers would block each other' % (pragma_val(last) if last is not None else 'delete'), last, tr)
        else:
            coll.ok('wal', 'journal_mode=wal after the schema is created')
    elif last is not None and pragma_val(last) != 'wal':
        coll.bad('wal', 'opening a directory leaves the manifest in journal mode %s' % pragma_val(last), last, tr)

def pragma_name(e):
    n = e.d.get('name')
    if isinstance(n, Term):
        n = n.a[0].decode() if n.op == 'str' else show(n)
    return (n or '').lower()

def pragma_val(e):
    v = e.d.get('value')
    if isinstance(v, Term):
        return v.a[0].decode().lower() if v.op == 'str' else show(v)
    return v

def jobs(ctx):
    P = ctx.prog()
    out = []
    sp = check.spawned_closures(ctx)
    if not sp:
        raise Missing('the reclaimer thread started by Handle::new')
    out.append(Job('reclaimer', closure=check.closure_job(sp[0]), judge=judge_puncher, cfg=dict(K=2, elem_total=1, max_traces=20000)))
    for n in ('Handle::list_items', 'Handle::walk_dir', 'Handle::cleanup_snapshots'):
        out.append(Job(n, need(P, n), judge=judge_ro(n, 'listing')))
    out.append(Job('possum_list_items', need(P, 'ext:possum_list_items'), judge=judge_ro('possum_list_items', 'listing')))
    for n in ('file_values', 'sum_value_length', 'query_last_end_offset', 'next_value_offset', 'list_items'):
        for k, f in enumerate(x for x in P.F if 'blocks' in x and check.strip_generics(x['path']).endswith('ReadTransaction::' + n)):
            out.append(Job('%s/%d' % (n, k), f, judge=judge_ro('ReadTransaction::' + n, 'query')))
    out.append(Job('open', need(P, 'Handle::new'), judge=judge_open, cfg=dict(K=2, elem_total=0, err_cap=0, max_traces=20000)))
    return out
