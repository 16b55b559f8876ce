import itertools
from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.models import seqparts
from vlib.txlib import scan, succeeded, colref, rowcol

ID = 'C13'
RULE = '''
Listing is analysed for every shape of prefix up to the length bound, each byte being either 0xff or an unknown byte other
than 0xff.  The query must select from keys without limit by exactly key >= prefix and, if any byte is not 0xff, key < the
prefix cut after its last non-0xff byte with that byte incremented (the only bounds that admit exactly the keys with the
prefix).  The list returned is all of its rows, in the row's own key column.  On every path of delete_prefix and
move_prefix that succeeds the list for exactly the given prefix is exhausted and, for every row, the listed key is deleted,
or renamed to the new prefix followed by what follows the old prefix.  C entry points pass the caller's buffers and return
each key with exactly the length of the prefix cut off.
'''
FLOORS = {'bounds': 8, 'items': 3, 'deleted': 1, 'moved': 1, 'c-trim': 1, 'c-pass': 2}

def bytes_of(t):
    """list of byte terms of a byte string of known shape"""
    if t.op == 'str':
        return [I(b) for b in t.a[0]]
    if t.op in ('arr', 'vec') and len(t.a) == 1 and isinstance(t.a[0], tuple):
        return list(t.a[0])
    if t.op == 'agg' and t.a[0] == 'arr':
        return list(t.a[2])
    return None

def listing(x):
    """(lower param, upper param or None) of a key range query; None if it is not one"""
    s = x.s
    if s is None or s['k'] != 'select' or [f[0] for f in s['from']] != ['keys'] or s.get('limit') or s.get('group') or s.get('distinct') or 'key' not in x.names:
        return None
    lo = hi = None
    for c in sqlan.conjuncts(s['where']):
        if c[0] == 'bin' and c[1] == '>=' and c[2] == ('col', 'key') and c[3][0] == 'param' and lo is None:
            lo = x.param(c[3][1])
        elif c[0] == 'bin' and c[1] == '<' and c[2] == ('col', 'key') and c[3][0] == 'param' and hi is None:
            hi = x.param(c[3][1])
        else:
            return None
    return lo, hi

def lists(S_):
    return [x for t in S_.order for x in t.ex if x.k == 'select' and x.e.op != 'prepare' and 'key' in x.names and x.s['where'] is not None and x.e.op == 'query_map' or
            x.k == 'select' and x.e.op == 'query_map' and 'keys' in [f[0] for f in x.s['from']]]

def judge_shape(shape, bs):
    def j(tr, coll):
        S_ = scan(tr)
        xs = [x for x in lists(S_) if x.outcome == 'rows']
        if tr.outcome == 'ret' and succeeded(tr) is not True:
            return
        want = list(bs)
        while want and want[-1] is I(255):
            want.pop()
        hi = want[:-1] + [add(want[-1], I(1))] if want else None
        if tr.outcome == 'panic' and not xs:
            return
        if tr.outcome != 'ret':
            return
        if len(xs) != 1:
            coll.bad('shape:none', 'listing runs %d key queries' % len(xs), None, tr)
            return
        x = xs[0]
        r = listing(x)
        nm = '[%s]' % ' '.join('ff' if c == 'f' else '<ff' for c in shape)
        if r is None:
            # no condition at all is right for the empty prefix
            if not shape and x.s and x.s.get('where') is None and not x.s.get('limit'):
                coll.ok('bounds')
            else:
                coll.bad('query', 'the keys with a prefix are not listed by a plain key range: ' + x.desc(), x.e, tr)
            return
        lo = bytes_of(r[0]) if r[0] is not None else []
        if lo is None or lo != list(bs):
            coll.bad('lower', 'for prefix %s the lower bound is %s' % (nm, show(r[0])), x.e, tr)
            return
        if r[1] is None:
            if hi is not None:
                coll.bad('upper', 'for prefix %s there is no upper bound, so keys without the prefix are included' % nm, x.e, tr)
            else:
                coll.ok('bounds')
            return
        if hi is None:
            coll.bad('upper', 'for prefix %s keys are bounded above by %s, so some with the prefix are left out' % (nm, show(r[1])), x.e, tr)
        elif bytes_of(r[1]) != hi:
            coll.bad('upper', 'for prefix %s the upper bound is %s instead of %s' % (nm, show(r[1]), show(tuple(hi))), x.e, tr)
        else:
            coll.ok('bounds', '%s: %s [%s, %s)' % (nm, x.desc(), show(r[0]), show(r[1])))
    return j

def lower_is(x, prefix, tr=None):
    r = listing(x)
    return r is not None and (r[0] is prefix or tr is not None and same_bytes(tr, r[0], prefix))

def judge_items(prefix):
    """the whole result, unchanged"""
    def j(tr, coll):
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        S_ = scan(tr)
        xs = [x for x in lists(S_) if x.outcome == 'rows']
        if len(xs) != 1 or not lower_is(xs[0], prefix, tr):
            coll.bad('items:query', 'the list is not made by one query for exactly the given prefix (%s)' % (xs[0].desc() if xs else 'none'), xs[0].e if xs else None, tr)
            return
        x = xs[0]
        base, el = seqparts(vkind(tr.value)[1])
        n = txlib.structf(tr.I.P, 'Item')
        if x.ended != 'end':
            coll.bad('items:partial', 'the list is returned before all rows were read', x.e, tr)
        elif len(el) != len(x.rows):
            coll.bad('items:count', '%d of %d listed rows are returned' % (len(el), len(x.rows)), x.e, tr)
        else:
            for (i, k), v in zip(x.rows, el):
                if v.op != 'agg' or 'key' not in n or colref(v.a[2][n['key']]) != rowcol(x, k, 'key'):
                    coll.bad('items:key', 'a listed item (%s) is not the row\'s' % show(v), x.e, tr)
                    return
            coll.ok('items', x.desc())
    return j

def lists_ok(name, tr, coll, prefix):
    S_ = scan(tr)
    xs = [x for x in lists(S_) if x.outcome == 'rows' and not (x.s and x.s.get('limit'))]
    if len(xs) != 1 or not lower_is(xs[0], prefix, tr):
        coll.bad('%s:query' % name, '%s does not list exactly the keys with the given prefix (%s)' % (name, xs[0].desc() if xs else 'no query'), xs[0].e if xs else None, tr)
        return None, None
    x = xs[0]
    if x.ended != 'end':
        coll.bad('%s:partial' % name, '%s succeeds before all keys with the prefix were listed' % name, x.e, tr)
        return None, None
    return S_, x

def judge_delete(prefix, name='delete_prefix'):
    def j(tr, coll):
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        S_, x = lists_ok(name, tr, coll, prefix)
        if x is None:
            return
        dels = [y for t in S_.order for y in t.ex if y.k == 'delete' and y.where_param('key') is not None and y.ok()]
        for y in dels:
            c = colref(y.where_param('key'))
            if c not in [rowcol(x, k, 'key') for i, k in x.rows]:
                coll.bad('delete:other', 'delete_prefix deletes %s, which was not listed' % show(y.where_param('key')), y.e, tr)
                return
        for i, k in x.rows:
            n = [y for y in dels if colref(y.where_param('key')) == rowcol(x, k, 'key') and len(sqlan.conjuncts(y.s['where'])) == 1]
            if len(n) != 1:
                coll.bad('delete:missed', 'a listed key is deleted %d times' % len(n), x.e, tr)
                return
            coll.ok('deleted', n[0].desc())
    return j

def suffix_of(t, col, prefix, tr):
    """t is what follows the prefix in col"""
    if t is col and isempty(tr, prefix):
        return True
    if t.op == 'strip':
        return t.a[0] is col and same_bytes(tr, t.a[1], prefix)
    if t.op == 'sub':
        return t.a[0] is col and (t.a[1] in (mk('len', prefix), prefix_len(prefix)) or t.a[1] is I(0) and isempty(tr, prefix)) and t.a[2] is mk('len', col)
    return False

def prefix_len(p):
    return p.a[1] if p.op == 'raw' else mk('len', p)

def judge_move(frm, to):
    def j(tr, coll):
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        S_, x = lists_ok('move_prefix', tr, coll, frm)
        if x is None:
            return
        ups = [y for t in S_.order for y in t.ex if y.k == 'update' and 'key' in y.sets() and y.ok()]
        seen = []
        for y in ups:
            c = y.where_param('key')
            v = y.s['set'][0][1]
            p = y.param(v[1]) if v[0] == 'param' else None
            if c is None or p is None or len(sqlan.conjuncts(y.s['where'])) != 1 or y.s.get('or') or y.sets() != ['key']:
                coll.bad('move:stmt', 'move_prefix renames by something other than one key at a time: ' + y.desc(), y.e, tr)
                return
            if colref(c) not in [rowcol(x, k, 'key') for i, k in x.rows]:
                coll.bad('move:other', 'move_prefix renames %s, which was not listed' % show(c), y.e, tr)
                return
            parts = p.a[0] if p.op == 'cat' else None
            if parts is None and isempty(tr, to):
                parts = (to, p)
            if parts is None or len(parts) != 2 or not same_bytes(tr, parts[0], to) or not suffix_of(parts[1], c, frm, tr):
                coll.bad('move:name', 'move_prefix renames %s to %s instead of the new prefix followed by the rest of the key' % (show(c), show(p)), y.e, tr)
                return
            seen.append(colref(c))
            coll.ok('moved', y.desc())
        for i, k in x.rows:
            if seen.count(rowcol(x, k, 'key')) != 1:
                coll.bad('move:missed', 'a listed key is renamed %d times' % seen.count(rowcol(x, k, 'key')), x.e, tr)
    return j

def judge_clist(name, prefix):
    """the C list: each item's key is the listed key without the prefix"""
    plen = prefix_len(prefix)
    def j(tr, coll):
        if tr.outcome != 'ret' or succeeded(tr) is not True:
            return
        S_, x = lists_ok(name, tr, coll, prefix)
        if x is None:
            return
        cp = evs(tr, 'memcpy')
        seen = set()
        for e in cp:
            src = e.src
            cols = {c for c in subterms(src) if c.op == 'col'}
            if len(cols) != 1:
                continue
            col, = cols
            if colref(col) not in [rowcol(x, k, 'key') for i, k in x.rows]:
                coll.bad('c:foreign', '%s copies something other than a listed key' % name, e, tr)
                return
            L = mk('len', col)
            noprefix = tr.I.decide(tr.st, eq0(plen)) is True
            okk = src.op == 'sub' and src.a[0] is col and src.a[1] is plen and src.a[2] is L and e.d['n'] is sub(L, plen) or \
                noprefix and e.d['n'] is L and (src is col or src.op == 'sub' and src.a[0] is col and src.a[1] is I(0) and src.a[2] is L) or \
                src.op == 'strip' and src.a[0] is col and src.a[1] is prefix
            if not okk:
                coll.bad('c:trim', '%s returns %s (%s bytes) for a listed key instead of what follows the prefix' % (name, show(src), show(e.d['n'])), e, tr)
                return
            size = [a for a in evs(tr, 'store') if a.v.op == 'agg' and a.v.a[0].endswith('PossumItem') and e.dst in subterms(a.v)]
            if not size or e.d['n'] not in size[0].v.a[2][0].a[2]:
                coll.bad('c:size', '%s reports a key size other than what was copied' % name, e, tr)
                return
            seen.add(colref(col))
            coll.ok('c-trim', show(src))
        if len(seen) != len(x.rows):
            coll.bad('c:missed', '%s returns %d of %d listed keys' % (name, len(seen), len(x.rows)), x.e, tr)
    return j

def jobs(ctx):
    P = ctx.prog()
    out = []
    f = need(P, 'Handle::list_items')
    maxn = 4 if ctx.tier == 'thorough' else 3
    for n in range(maxn + 1):
        for shape in itertools.product('bf', repeat=n):
            bs = [I(255) if c == 'f' else mk('arg', 'b%d' % i) for i, c in enumerate(shape)]
            def script(P, bs=bs):
                def go(I_, st, env):
                    for b in bs:
                        if b.op == 'arg':
                            st.facts[eq0(add(b, I(-255)))] = False
                            key, sg, k = I_._bkey(b)
                            st.bounds[key] = (0, 254, ())
                    return ('call', f['id'], [mk('arg', 'self'), I_.alloc(st, mk('arr', tuple(bs)))])
                return [go]
            out.append(Job('list[%s]' % ''.join(shape), None, script=script, judge=judge_shape(shape, bs), cfg=dict(K=n + 2, elem_total=0, err_cap=0)))
    D = lambda n: mk('deref', mk('arg', n))
    R = lambda n: mk('raw', mk('fld', mk('arg', n), 0), mk('fld', mk('arg', n), 1))
    pr = txlib.either(txlib.nolimit(P), txlib.quiet_send)
    c = dict(K=3, elem_cap=2, elem_total=2, err_cap=0)
    out.append(Job('list_items', f, args=A('self', 'prefix'), judge=judge_items(D('prefix')), cfg=dict(K=3, elem_cap=2, elem_total=2)))
    for k, g in enumerate(txlib.fnnamed(P, 'Reader::list_items')):
        out.append(Job('Reader::list_items/%d' % k, g, args=A('self', 'prefix'), judge=judge_items(D('prefix'))))
    for g in txlib.fnnamed(P, 'Handle::delete_prefix'):
        out.append(Job('delete_prefix', g, args=A('self', 'prefix'), judge=judge_delete(D('prefix') if '&' in g['name'] else mk('arg', 'prefix')), cfg=c, prune=pr))
    out.append(Job('move_prefix', need(P, 'Handle::move_prefix'), args=A('self', 'from', 'to'), judge=judge_move(D('from'), D('to')), cfg=c, prune=pr))
    c1 = dict(K=2, elem_total=1, err_cap=0)
    cp = lambda j: (lambda tr, coll: (j(tr, coll), coll.ok('c-pass') if tr.outcome == 'ret' and succeeded(tr) else None))
    out.append(Job('c-delete_prefix', need(P, 'ext:possum_handle_delete_prefix'), args=A('handle', 'prefix'), judge=cp(judge_delete(R('prefix'))), cfg=c1, prune=pr))
    out.append(Job('c-move_prefix', need(P, 'ext:possum_handle_move_prefix'), args=A('handle', 'from', 'to'), judge=cp(judge_move(R('from'), R('to'))), cfg=c1, prune=pr))
    for n in ('possum_list_items', 'possum_reader_list_items'):
        out.append(Job(n, need(P, 'ext:' + n), args=A('handle', 'prefix', 'out', 'out_len'), judge=judge_clist(n, R('prefix')), cfg=c1))
    return out
