from vlib.rulelib import *
from vlib import txlib
from vlib.txlib import scan, succeeded, elems_in

ID = 'C04'
RULE = '''
Every path of every operation that changes the manifest is enumerated.  All statements changing content run inside one
explicitly begun transaction; a path that reports success has committed it after its last statement; a path on which any
of its statements (or reading their rows) failed never commits it, and a path that reports failure has not committed it.
A batch applies each staged write (delete of the key, insert of the staged location) in order from the first to the
last, then each staged rename in order, exhausting both lists before it commits.
'''
FLOORS = {'committed': 20, 'failed-not-committed': 20, 'batch-order': 10, 'batch-write': 10, 'batch-rename': 4}

def base_judge(name, tr, coll, S_):
    if tr.outcome not in ('ret', 'panic'):
        return
    ok = succeeded(tr)
    used = []
    for e in evs(tr, 'dropbehavior'):
        if variant_name(tr.I.P, e.v) not in ('Rollback', 'Panic'):
            coll.bad('drop:' + name, '%s: a transaction that is dropped without being committed is not rolled back' % name, e, tr)
    for t in S_.order:
        cw = [x for x in t.ex if x.content() and x.outcome != 'err']
        if any(e.d.get('raw') and e.tx is t.id for e in evs(tr, 'commit', 'begin', 'rollback')) and cw:
            coll.bad('raw:' + name, '%s: a transaction with changes is ended or restarted by SQL text' % name, cw[0].e, tr)
        if not cw:
            continue
        used.append((t, cw))
        if t.begin is None and not t.behavior:
            coll.bad('notx:%s:%s' % (name, cw[0].desc()[:50]), '%s: changes the manifest outside a transaction: %s' % (name, cw[0].desc()), cw[0].e, tr)
            continue
        failed = [x for x in t.ex if x.outcome == 'err' or x.ended == 'err']
        if t.commit is not None:
            late = [x for x in cw if x.i > t.commit]
            if late:
                coll.bad('late:' + name, '%s: a statement runs after its transaction was committed: %s' % (name, late[0].desc()), late[0].e, tr)
            if failed:
                coll.bad('partial:%s:%s' % (name, failed[0].desc()[:50]), '%s: the transaction is committed although a statement of it failed: %s' % (name, failed[0].desc()), failed[0].e, tr)
            elif tr.outcome == 'ret' and ok is False:
                coll.bad('visible:' + name, '%s: reports failure although its changes are committed' % name, tr.events[t.commit], tr)
            elif tr.outcome == 'ret':
                coll.ok('committed', '%s: %s … commit' % (name, cw[0].desc()))
        elif tr.outcome == 'ret' and ok is not False:
            # nothing changed?
            if all(x.outcome == 'norows' for x in cw):
                coll.ok('nothing-changed')
            else:
                coll.bad('uncommitted:' + name, '%s: reports success but the transaction that made its changes was not committed' % name, cw[-1].e, tr)
        elif tr.outcome == 'ret':
            coll.ok('failed-not-committed', name)
    comm = [t for t, cw in used if t.commit is not None]
    if len(used) > 1:
        coll.bad('split:' + name, '%s: its changes are spread over %d transactions' % (name, len(used)), used[1][1][0].e, tr)

def judge(name):
    return lambda tr, coll: base_judge(name, tr, coll, scan(tr))

def batch_judge(name, fw, fr):
    def j(tr, coll):
        S_ = scan(tr)
        base_judge(name, tr, coll, S_)
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        commits = [t for t in S_.order if t.commit is not None]
        if not commits:
            coll.bad('batch:nocommit', '%s: success without a committed transaction' % name, None, tr)
            return
        t = commits[0]
        per = {'w': [], 'r': []}
        seqs = {'w': None, 'r': None}
        for x in t.ex:
            es = set()
            for p in x.params:
                es |= elems_in(p)
            for s, k in es:
                if s.op == 'fld' and s.a[1] in (fw, fr):
                    kind = 'w' if s.a[1] == fw else 'r'
                    seqs[kind] = s
                    per[kind].append((x, k))
        for f in tr.facts:
            if isinstance(f, Term) and f.op == 'has' and f.a[0].op == 'fld' and f.a[0].a[1] in (fw, fr):
                seqs['w' if f.a[0].a[1] == fw else 'r'] = f.a[0]
        for kind, what in (('w', 'write'), ('r', 'rename')):
            s = seqs[kind]
            if s is None:
                coll.bad('batch:ignored-' + what, '%s: commits without looking at the staged %ss' % (name, what), None, tr)
                return
            ks = [k.a[0] if k.op == 'int' else -1 for _, k in per[kind]]
            n = 0
            while tr.facts.get(mk('has', s, n)) is True:
                n += 1
            if tr.facts.get(mk('has', s, n)) is not False:
                coll.bad('batch:rest-' + what, '%s: commits without having applied all staged %ss' % (name, what), None, tr)
                return
            if ks != sorted(ks) or -1 in ks:
                coll.bad('batch:order-' + what, '%s: staged %ss are not applied in staged order (%s)' % (name, what, ks), per[kind][0][0].e, tr)
                return
            for k in range(n):
                xs = [x for x, kk in per[kind] if kk is I(k)]
                if kind == 'w':
                    ins = [x for x in xs if x.k == 'insert' and x.outcome == 'done']
                    if len(ins) != 1:
                        coll.bad('batch:apply-write', '%s: staged write %d leads to %d inserts' % (name, k, len(ins)), xs[0].e if xs else None, tr)
                    else:
                        coll.ok('batch-write', ins[0].desc())
                elif not xs and not empty_rename(tr, s, I(k)):
                    coll.bad('batch:apply-rename', '%s: staged rename %d is not applied' % (name, k), None, tr)
                else:
                    coll.ok('batch-rename')
        if per['w'] and per['r'] and max(x.i for x, _ in per['w']) > min(x.i for x, _ in per['r']):
            coll.bad('batch:order', '%s: a staged rename is applied before the staged writes' % name, per['r'][0][0].e, tr)
        else:
            coll.ok('batch-order')
    return j

def empty_rename(tr, s, k):
    """the renamed value is known to be empty (it has no location to find it by)"""
    for f, v in tr.facts.items():
        if isinstance(f, Term) and f.op == 'discr' and (s, k) in elems_in(f) and v == 0:
            return True
    return False

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, kinds=('delete', 'rename', 'move-prefix', 'delete-prefix', 'set-limits', 'commit', 'c-read', 'read', 'single-write'), cfg=dict(K=2))
    for j in out:
        j.judge = judge(j.name)
    fw, fr = txlib.seq_field(P, 'BatchWriter', 'PendingWrite'), txlib.seq_field(P, 'BatchWriter', 'ValueRename')
    pr = txlib.either(txlib.nolimit(P), txlib.quiet_send)
    for f in txlib.fnnamed(P, 'BatchWriter::commit') + txlib.fnnamed(P, 'ext:possum_writer_commit'):
        nm = f['path'].split('::')[-1] + (' (Rust)' if '&' in f['name'] else '')
        out.append(Job('order ' + nm, f, judge=batch_judge(nm, fw, fr), cfg=dict(K=2, elem_cap=2, elem_total=3, err_cap=0), prune=pr))
    return out
