from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.txlib import scan, elems_in, succeeded

ID = 'C12'
RULE = '''
Renaming a key: on every path the only change made is one update of the row whose key is the old name, setting just its key
to the new name, with no conflict clause (so an existing destination makes it fail); if no row matched, NoSuchKey is
returned and nothing is committed.  Renaming a value (a staged rename of a non-empty value, applied at commit): nothing is
changed before the row with the value's file id and offset has been found and its key is known to differ from the new one;
then the row stored under the new key is removed (or known to be absent) and exactly the value's row gets exactly the new
key.  The rename that is staged is the value and key that were passed.
'''
FLOORS = {'renamed': 1, 'missing': 1, 'value-renamed': 2, 'value-missing': 1, 'same-name': 1, 'staged': 1}

FROM, TO = mk('deref', mk('arg', 'from')), mk('deref', mk('arg', 'to'))

def writes(S_):
    return [x for t in S_.order for x in t.ex if x.e.op != 'prepare' and x.content()] + [x for x in S_.loose if not x.readonly]

def eqcols(x):
    """{column: term} of an exact equality where clause, None if there is anything else"""
    if not x.s or not x.s.get('where'):
        return None
    r = {}
    for c in sqlan.conjuncts(x.s['where']):
        if c[0] == 'bin' and c[1] in ('=', 'is') and c[2][0] == 'col' and c[3][0] == 'param':
            r[c[2][1]] = x.param(c[3][1])
        else:
            return None
    return r

def setkey(x):
    if x.k != 'update' or x.s['table'] != 'keys' or x.s.get('or') or x.sets() != ['key']:
        return None
    v = x.s['set'][0][1]
    return x.param(v[1]) if v[0] == 'param' else None

def judge_item(tr, coll):
    S_ = scan(tr)
    w = [x for x in writes(S_) if x.ok()]
    up = None
    for x in w:
        if x.k in ('delete',) and 'key' not in (eqcols(x) or {}):
            continue                # evictions
        k = setkey(x)
        if k is None or eqcols(x) is None:
            coll.bad('item-stmt:' + x.desc()[:60], 'renaming a key does something other than updating the key of the row with the old name: %s' % x.desc(), x.e, tr)
            continue
        if k is not TO or eqcols(x) != {'key': FROM}:
            coll.bad('item-args', 'renaming a key sets key=%s where %s' % (show(k), {c: show(v) for c, v in eqcols(x).items()}), x.e, tr)
            continue
        if up is not None:
            coll.bad('item-twice', 'renaming a key updates twice', x.e, tr)
        up = x
    if tr.outcome != 'ret':
        return
    ok = succeeded(tr)
    com = [t for t in S_.order if t.commit is not None]
    if ok:
        if up is None or up.outcome not in ('row', 'done') or not com:
            if known_same(tr):
                coll.ok('same-name')
                return
            # executed as a plain statement: the number of rows changed must have been looked at
            coll.bad('item-none', 'renaming a key reports success although no row was renamed', up.e if up else None, tr)
        elif up.outcome == 'done' and not changed_one(tr, up):
            coll.bad('item-none', 'renaming a key reports success without knowing that a row was renamed', up.e, tr)
        else:
            coll.ok('renamed', up.desc())
    elif up is not None and up.outcome == 'norows':
        e = vkind(tr.value)[1]
        if variant_name(tr.I.P, e) != 'NoSuchKey':
            coll.bad('item-missing', 'renaming a missing key reports %s instead of NoSuchKey' % show(e), up.e, tr)
        elif com:
            coll.bad('item-missing-commit', 'renaming a missing key commits', up.e, tr)
        else:
            coll.ok('missing')

def known_same(tr):
    return any(isinstance(f, Term) and f.op == 'eqv' and set(f.a) == {FROM, TO} and v is True for f, v in tr.facts.items())

def changed_one(tr, x):
    for f, v in tr.facts.items():
        if isinstance(f, Term) and f.op in ('eq0', 'lt0') and any(t.op in ('changes', 'nrows') for t in subterms(f)):
            return True
    return False

def judge_value(fr, vi, ki, loci):
    """staged rename of one value, at commit"""
    def j(tr, coll):
        S_ = scan(tr)
        s = None
        for f in tr.facts:
            if isinstance(f, Term) and f.op == 'has' and f.a[0].op == 'fld' and f.a[0].a[1] == fr:
                s = f.a[0]
        if s is None:
            return
        el = mk('elem', s, I(0))
        newkey = fld(el, ki)
        val = fld(el, vi)
        def is_loc(t, which):
            """the value's file id / offset (through Some)"""
            if t is None:
                return False
            if t.op == 'agg' and t.a[0].startswith('std::option::Option<'):
                return t.a[1] == 1 and is_loc(t.a[2][0], which)
            if t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[0].op == 'agg':
                return is_loc(t.a[0].a[0], which)
            return t.op == 'fld' and t.a[1] == loci[which] and any(x is val for x in subterms(t))
        found = None      # select that found the value's row
        gone = updated = False
        differs = same = False
        dest = None
        for t in S_.order:
            for x in t.ex:
                if x.e.op == 'prepare' or not x.ok():
                    continue
                c = eqcols(x)
                if x.k == 'select' and c and set(c) == {'file_id', 'file_offset'} and is_loc(c['file_id'], 'file_id') and is_loc(c['file_offset'], 'file_offset'):
                    if x.outcome == 'row':
                        found = x
                        for f, v in tr.facts.items():
                            if isinstance(f, Term) and f.op == 'eqv' and newkey in f.a:
                                o = [y for y in f.a if y is not newkey]
                                if o and txlib.colref(o[0]) == txlib.rowcol(x, 0, 'key'):
                                    same, differs = v is True, v is False
                    else:
                        gone = True
                    continue
                if x.k == 'select' and c and set(c) == {'key'} and c['key'] is newkey and x.outcome == 'norows':
                    dest = x
                    continue
                if not x.content():
                    continue
                if x.k == 'delete' and c is None:
                    continue                    # evictions
                if gone or x.k != 'update' and not (found and differs) or x.k == 'update' and same:
                    why = 'the value is known to be gone' if gone else 'the value was found to have that name already' if same else \
                          'it is known that the value still exists' if not found else 'it is known that it has another name'
                    coll.bad('value-early:' + x.desc()[:60], 'renaming a value changes the manifest %s%s: %s' % ('although ' if gone or same else 'before ', why, x.desc()), x.e, tr)
                    return
                if x.k == 'delete':
                    if c != {'key': newkey}:
                        coll.bad('value-dest', 'renaming a value removes something other than the row stored under the new key: %s' % x.desc(), x.e, tr)
                        return
                    dest = x
                    continue
                k = setkey(x)
                if k is None or c is None:
                    coll.bad('value-stmt:' + x.desc()[:60], 'renaming a value does something other than setting its row\'s key: %s' % x.desc(), x.e, tr)
                    return
                if k is not newkey or set(c) != {'file_id', 'file_offset'} or not is_loc(c['file_id'], 'file_id') or not is_loc(c['file_offset'], 'file_offset'):
                    coll.bad('value-args', 'renaming a value sets key=%s where %s' % (show(k), {a: show(v) for a, v in c.items()}), x.e, tr)
                    return
                if x.outcome != 'norows' and dest is None:
                    coll.bad('value-nodest', 'a value is renamed although a row may be stored under the new key', x.e, tr)
                    return
                updated = True
                if x.outcome in ('row', 'done'):
                    found = ('renamed', x)
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        if isinstance(found, tuple):
            coll.ok('value-renamed', found[1].desc())
        elif gone:
            coll.ok('value-missing')
        elif found is not None and same:
            coll.ok('same-name')
        elif found is not None and differs and dest is not None and updated:
            pass                # the row that was found is still there: the update cannot miss it
        elif tr.facts.get(mk('has', s, 0)) is True and not empty_value(tr, val):
            coll.bad('value-ignored', 'a staged rename of a value has no effect', None, tr)
    return j

def empty_value(tr, val):
    return any(isinstance(f, Term) and f.op == 'discr' and v == 0 and any(x is val for x in subterms(f)) for f, v in tr.facts.items())

def judge_stage(vi, ki, value, key):
    def j(tr, coll):
        if tr.outcome != 'ret':
            return
        ps = [e for e in evs(tr, 'push') if e.v.op == 'agg' and e.v.a[0].endswith('ValueRename')]
        if succeeded(tr) is False:
            return
        if len(ps) != 1:
            coll.bad('stage', 'staging a rename stages %d' % len(ps), None, tr)
            return
        v, k = ps[0].v.a[2][vi], ps[0].v.a[2][ki]
        if not value(v) or not key(tr, k):
            coll.bad('stage-args', 'the rename that is staged is of %s to %s' % (show(v), show(k)), ps[0], tr)
        else:
            coll.ok('staged')
    return j

def jobs(ctx):
    P = ctx.prog()
    out = [Job('rename', need(P, 'Handle::rename_item'), args=A('self', 'from', 'to'), judge=judge_item)]
    fw, fr = txlib.seq_field(P, 'BatchWriter', 'PendingWrite'), txlib.seq_field(P, 'BatchWriter', 'ValueRename')
    n = txlib.structf(P, 'ValueRename')
    loc = txlib.structf(P, 'NonzeroValueLocation')
    vi = txlib.field_of_type(P, 'ValueRename', 'Value')
    ki = [i for f, i in n.items() if i != vi]
    if len(ki) != 1:
        raise Missing('ValueRename with one value and one key')
    ki = ki[0]
    def nowrites(e, st):
        return e.k == 'assume' and e.v is True and e.t.op == 'has' and e.t.a[0].op == 'fld' and e.t.a[0].a[1] == fw
    pr = txlib.either(txlib.nolimit(P), txlib.quiet_send, nowrites)
    for k, f in enumerate(txlib.fnnamed(P, 'BatchWriter::commit')):
        out.append(Job('commit/%d' % k, f, judge=judge_value(fr, vi, ki, loc), prune=pr, cfg=dict(K=2, elem_total=1)))
    A1, A2 = mk('arg', 'value'), mk('arg', 'key')
    for k, f in enumerate(txlib.fnnamed(P, 'BatchWriter::rename_value')):
        out.append(Job('stage/%d' % k, f, args=A('self', A1, A2), judge=judge_stage(vi, ki, lambda v: v is A1, lambda tr, v: v is A2)))
    raw = mk('raw', mk('fld', A2, 0), mk('fld', A2, 1))
    out.append(Job('c-stage', need(P, 'ext:possum_writer_rename'), args=A('writer', A1, A2),
                   judge=judge_stage(vi, ki, lambda v: v.op == 'fld' and any(x is mk('deref', A1) for x in subterms(v)), lambda tr, v: same_bytes(tr, v, raw))))
    return out
