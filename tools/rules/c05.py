from vlib.rulelib import *
from vlib import txlib
from vlib.txlib import scan, rowcol, colref, is_empty_row, deletes_rows, location, seqparts

ID = 'C05'
RULE = '''
Every path of every operation that changes the manifest is enumerated.  For each row a statement removes from keys (delete,
or a conflict clause that replaces), if the transaction commits on that path then, unless the row is known to be an empty
value or hole punching is known to be disabled, the (file id, offset, length) columns of that very row must be sent to
the reclaimer after the commit and after the manifest connection guard taken for the transaction is released.  Each
element sent must be such a row.  A statement that can remove rows without reporting them all is a violation.
'''
FLOORS = {'delete': 3, 'commit': 3, 'delete-prefix': 2, 'evict': 2, 'hole-punching-disabled': 3, 'not-committed': 5, 'set-limits-evict': 1, 'read-evict': 1, 'c-read-evict': 1}

def disabled_fact(tr, P, ib, ils):
    """hole punching is known to be disabled (True) / enabled (False) / not consulted (None)"""
    r = None
    for f, v in tr.facts.items():
        if isinstance(f, Term) and f.op == 'fld' and isinstance(v, bool):
            p, i = f.a[0], f.a[1]
            if i == ib and (p.op == 'fld' and p.a[1] in ils or p.op in ('arg', 'deref')):
                r = v
    return r

def judge(name):
    def j(tr, coll):
        P = tr.I.P
        S_ = scan(tr)
        ib = txlib.structf(P, 'handle::Limits').get('disable_hole_punching')
        if ib is None:
            raise Missing('Limits::disable_hole_punching')
        il = txlib.field_of_type(P, 'handle::Handle', 'Limits')
        removed = {}
        for t in S_.order:
            for x in t.ex:
                if not x.ok():
                    continue
                if x.sts is None and not x.readonly:
                    coll.bad('sql:' + x.desc()[:80], 'statement not understood: ' + x.desc(), x.e, tr)
                    continue
                for s in x.sts or ():
                    if s['k'] in ('insert', 'update', 'delete') and (len(x.sts) > 1) and s.get('table') == 'keys':
                        coll.bad('blind:' + x.desc()[:80], 'rows of keys are changed by a batch that reports nothing: ' + x.desc(), x.e, tr)
                d = deletes_rows(x)
                if not d:
                    continue
                if t.commit is None:
                    coll.ok('not-committed')
                seen_all = d == 'delete' and (x.e.op == 'query_row' and x.single_row() or x.e.op == 'query_map' and (x.ended == 'end' or t.commit is None))
                cols = {'file_id', 'file_offset', 'value_length'} <= set(x.names)
                if not (seen_all and cols):
                    if t.commit is not None and not (x.outcome == 'norows') and disabled_fact(tr, P, ib, (il,)) is not True:
                        coll.bad('blind:' + x.desc()[:80], 'a committed statement removes rows without reporting where their values are: ' + x.desc(), x.e, tr)
                    continue
                for i, k in x.rows:
                    removed[(x.id, k)] = (x, k, t)
        # what was handed over
        handed = {}
        for i, e in S_.sends:
            base, el = seqparts(e.v)
            if not any(v.op == 'agg' and v.a[0].endswith('NonzeroValueLocation') for v in el) and (el or 'vec' not in e.v.op):
                continue
            for v in el:
                l = location(P, v)
                if l is None:
                    continue
                refs = [colref(x) for x in l]
                own = None
                for key, (x, k, t) in removed.items():
                    if refs[0] is not None and refs[0][:2] == (x.id, k):
                        own = key
                if own is None:
                    coll.bad('foreign', 'space that no statement of this path removed is handed to the reclaimer: %s' % show(v), e, tr)
                    continue
                x, k, t = removed[own]
                want = [rowcol(x, k, c) for c in ('file_id', 'file_offset', 'value_length')]
                if refs != want:
                    coll.bad('mangled', 'the location handed to the reclaimer (%s) is not the removed row\'s (file_id, file_offset, value_length)' % show(v), e, tr)
                    continue
                if t.commit is None or t.commit > i:
                    coll.bad('early', 'a removed location is handed to the reclaimer although its transaction has not committed', e, tr)
                    continue
                g = [x for x in t.guards if S_.unlock.get(x, 1 << 60) > i]
                if g:
                    coll.bad('guarded', 'a removed location is handed to the reclaimer while the manifest connection is still held', e, tr)
                    continue
                if e.outcome in ('ok', 'disconnected'):
                    handed[own] = i
        if tr.outcome != 'ret':
            return
        for key, (x, k, t) in removed.items():
            if t.commit is None:
                continue
            em = is_empty_row(tr, x, k)
            what = name if x.where_param('key') is not None else 'evict'
            if em is True:
                coll.ok('empty')
            elif key in handed:
                if what == 'evict':
                    coll.ok(name + '-evict')
                coll.ok(what, '%s: row of "%s" -> reclaimer' % (name, x.desc()))
            elif disabled_fact(tr, P, ib, (il,)) is True:
                coll.ok('hole-punching-disabled')
            else:
                coll.bad('lost:%s:%s' % (name, x.desc()[:60]), '%s: the value removed by "%s" is committed as removed but never handed to the reclaimer' % (name, x.desc()), x.e, tr)
    return j

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, None)
    for j in out:
        j.judge = judge(j.name)
    return out
