from vlib.rulelib import *
from vlib import txlib, sqlan
from vlib.txlib import scan, colref

ID = 'C14'
RULE = '''
The key column is declared BLOB, NOT NULL and unique, without a collation or check on its content.  On every path of every
operation that runs a manifest statement, the statement's text is a constant; the key column is only ever compared directly
with a bound parameter (no cast, function, LIKE, collation) and set or inserted from one; that parameter is of a byte string
type and its value is, without conversion, a key the caller passed (for C: exactly the buffer's pointer and size), a staged
key, a key read back from the manifest, or a concatenation or part of those.  Keys read back are read as byte strings.
'''
FLOORS = {'schema': 3, 'statement': 60, 'key-param': 40, 'key-out': 3, 'stage': 4}

BYTES = ('&[u8]', '&std::vec::Vec<u8>', 'std::vec::Vec<u8>', '&&[u8]', '&&std::vec::Vec<u8>', 'dyn rusqlite::ToSql', '&dyn rusqlite::ToSql', '?')

def static(ctx, coll):
    sch, _ = txlib.schema(ctx)
    t = txlib.table(sch, 'keys')
    c = [c for c in t['cols'] if c['name'] == 'key']
    if not c:
        coll.bad('schema', 'table keys has no key column')
        return
    c = c[0]
    if (c.get('type') or '').lower() != 'blob':
        coll.bad('schema:type', 'keys.key is declared %s, not blob: keys would be converted' % (c.get('type') or 'without a type'))
    else:
        coll.ok('schema', 'key blob')
    if not c.get('notnull') and not c.get('pk'):
        coll.bad('schema:null', 'keys.key may be null')
    else:
        coll.ok('schema')
    uniq = c.get('unique') or c.get('pk') or any(u[0] in ('unique', 'primary') and tuple(u[1]) in ((('col', 'key'),), ('key',)) for u in t.get('cons', ()))
    for s in sch:
        if s['k'] == 'index' and s.get('unique') and s.get('table') == 'keys' and s.get('where') is None and [x if isinstance(x, str) else x[1] if x[0] == 'col' else None for x in s['cols']] == ['key']:
            uniq = True
    if not uniq:
        coll.bad('schema:unique', 'nothing makes keys.key unique')
    else:
        coll.ok('schema')
    if c.get('collate') not in (None, 'binary'):
        coll.bad('schema:collate', 'keys.key has the collation %s' % c['collate'])
    for s in sch:
        if s['k'] == 'trigger':
            for b in s['body']:
                for n in sqlan.walk(b):
                    if isinstance(n, dict) and n.get('k') == 'update' and n.get('table') == 'keys' and 'key' in [q for q, _ in n['set']]:
                        coll.bad('schema:trigger', 'trigger %s changes keys' % s['name'])

def pure(t):
    """an unconverted byte string from the caller, the manifest or a staged write"""
    if t.op == 'arg':
        return True
    if t.op in ('deref', 'fld', 'as') and isinstance(t.a[0], Term):
        return pure(t.a[0])
    if t.op == 'raw':
        p, n = t.a[0], t.a[1]
        return p.op == 'fld' and n.op == 'fld' and p.a[0] is n.a[0] and p.a[0].op == 'arg'
    if t.op == 'col':
        return 'u8' in str(t.a[3]) and ('Vec' in str(t.a[3]) or '[u8]' in str(t.a[3]))
    if t.op == 'elem':
        return True
    if t.op == 'cat':
        return all(pure(x) for x in t.a[0])
    if t.op in ('strip', 'sub', 'upd', 'vpop', 'trunc'):
        return pure(t.a[0])
    if t.op in ('vec', 'arr', 'str'):
        return True
    if t.op == 'agg' and len(t.a[2]) == 1 and t.a[0].startswith(('std::option::Option<', 'std::borrow::Cow<')):
        return pure(t.a[2][0])
    return False

CMP = ('=', 'is', '<', '<=', '>', '>=', '<>')
BAD = object()

def keyparams(s):
    """parameter numbers bound to the key column of a statement; BAD entries for anything else done with it"""
    out = []
    def expr(e):
        if isinstance(e, dict):
            stmt(e)
            return
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == 'bin' and e[1] in CMP and e[2][0] == 'col' and e[2][1] == 'key' or e[0] == 'bin' and e[1] in CMP and e[3][0] == 'col' and e[3][1] == 'key':
            o = e[3] if e[2][0] == 'col' and e[2][1] == 'key' else e[2]
            if o[0] == 'param':
                out.append(o[1])
            elif o[0] == 'col' and o[1] == 'key':
                pass
            else:
                out.append((BAD, e))
            return
        if e[0] == 'col' and e[1] == 'key':
            out.append((BAD, e))
            return
        for x in e[1:]:
            if isinstance(x, (tuple, dict)):
                expr(x)
            elif isinstance(x, list):
                for y in x:
                    expr(y)
    def stmt(s):
        if s.get('table', 'keys') not in ('keys', None) and s['k'] in ('insert', 'update', 'delete'):
            return
        if s['k'] == 'select' and 'keys' not in [f[0] if isinstance(f, tuple) else f for f in s.get('from') or ()]:
            return
        if s.get('where') is not None:
            expr(s['where'])
        for c, v in s.get('set') or ():
            if c == 'key':
                if v[0] == 'param':
                    out.append(v[1])
                else:
                    out.append((BAD, v))
            else:
                expr(v)
        if s['k'] == 'insert':
            cols = s.get('cols')
            for row in s.get('rows') or ():
                for c, v in zip(cols or (), row):
                    if c == 'key':
                        out.append(v[1] if v[0] == 'param' else (BAD, v))
        for c in (s.get('cols') if s['k'] == 'select' else s.get('returning')) or ():
            if c[0] == 'col':
                continue
            for n in sqlan.walk(c):
                if isinstance(n, tuple) and n[:2] == ('col', 'key'):
                    out.append((BAD, c))
    stmt(s)
    return out

def judge(name):
    def j(tr, coll):
        S_ = scan(tr)
        for x in [x for t in S_.order for x in t.ex] + S_.loose:
            if x.text is None:
                coll.bad('text:%s' % name, '%s runs a statement whose text is not a constant: %s' % (name, show(x.e.sql)[:200]), x.e, tr)
                continue
            coll.ok('statement', x.desc())
            if x.e.op == 'prepare' or not x.sts:
                continue
            for s in x.sts:
                if s['k'] not in ('select', 'insert', 'update', 'delete'):
                    continue
                for p in keyparams(s):
                    if isinstance(p, tuple):
                        coll.bad('sql:%s' % x.desc()[:70], 'the key column is not used as a plain bound value: ' + x.desc(), x.e, tr)
                        continue
                    v, ty = x.param(p), x.ptypes[p - 1] if p - 1 < len(x.ptypes) else '?'
                    if v is None:
                        if x.params:
                            coll.bad('unbound:%s' % x.desc()[:70], 'a key parameter is not bound: ' + x.desc(), x.e, tr)
                    elif ty.replace("'_ ", '') not in BYTES and not ty.startswith(('&[u8', '[u8', 'std::borrow::Cow<')) or 'str' in ty.split('::')[-1].lower().replace('dyn', ''):
                        coll.bad('type:%s' % x.desc()[:70], 'a key is bound as %s: %s' % (ty, x.desc()), x.e, tr)
                    elif not pure(v):
                        coll.bad('convert:%s' % x.desc()[:70], 'a key is bound that is not the bytes it was given as (%s): %s' % (show(v), x.desc()), x.e, tr)
                    else:
                        coll.ok('key-param', '%s: %s' % (name, show(v)))
        # keys coming back
        for v in ([tr.value] if isinstance(tr.value, Term) else []) + [e.v for e in evs(tr, 'push')] + [e.src for e in evs(tr, 'memcpy')]:
            for c in subterms(v):
                if c.op == 'col':
                    x = S_.exs.get(c.a[0])
                    if x is not None and c.a[2] < len(x.names) and x.names[c.a[2]] == 'key':
                        if not pure(c):
                            coll.bad('read:%s' % x.desc()[:70], 'a key is read back as %s' % c.a[3], x.e, tr)
                        else:
                            coll.ok('key-out', '%s as %s' % (x.desc(), c.a[3]))
    return j

def judge_stage(key):
    def j(tr, coll):
        if tr.outcome != 'ret':
            return
        for e in evs(tr, 'push'):
            if e.v.op == 'agg' and e.v.a[0].endswith('PendingWrite'):
                n = txlib.structf(tr.I.P, 'PendingWrite')
                if not same_bytes(tr, e.v.a[2][n["key"]], key):
                    coll.bad('stage', 'the key staged is %s' % show(e.v.a[2][n['key']]), e, tr)
                else:
                    coll.ok('stage')
            elif e.v.op == 'agg' and e.v.a[0].split('::')[-1] == 'ValueRename':
                k = txlib.seq_field(tr.I.P, 'ValueRename', 'u8')
                if not same_bytes(tr, e.v.a[2][k], key):
                    coll.bad('stage:rename', 'the new name staged is %s' % show(e.v.a[2][k]), e, tr)
                else:
                    coll.ok('stage')
    return j

def jobs(ctx):
    P = ctx.prog()
    out = txlib.write_roots(P, cfg=dict(K=2, err_cap=0, elem_total=1))
    c = dict(txlib.SMALL, err_cap=0)
    out.append(Job('read_single', need(P, 'Handle::read_single'), args=A('self', 'key'), cfg=c))
    out.append(Job('list_items', need(P, 'Handle::list_items'), args=A('self', 'prefix'), cfg=c))
    for n in ('possum_single_delete', 'possum_single_stat', 'possum_single_read_at', 'possum_list_items', 'possum_reader_list_items', 'possum_handle_move_prefix', 'possum_handle_delete_prefix', 'possum_reader_add'):
        out.append(Job(n, need(P, 'ext:' + n), cfg=c))
    for j in out:
        j.judge = judge(j.name)
    for k, f in enumerate(txlib.fnnamed(P, 'BatchWriter::stage_write')):
        out.append(Job('stage/%d' % k, f, args=A('self', 'key', 'value'), judge=judge_stage(mk('arg', 'key'))))
    raw = lambda n: mk('raw', mk('fld', mk('arg', n), 0), mk('fld', mk('arg', n), 1))
    for k, f in enumerate(txlib.fnnamed(P, 'BatchWriter::rename_value')):
        out.append(Job('rename/%d' % k, f, args=A('self', 'value', 'key'), judge=judge_stage(mk('arg', 'key'))))
    out.append(Job('c-rename', need(P, 'ext:possum_writer_rename'), args=A('writer', 'value', 'key'), judge=judge_stage(raw('key'))))
    out.append(Job('c-stage', need(P, 'ext:possum_writer_stage'), args=A('writer', 'key', 'value'), judge=judge_stage(mk('raw', mk('fld', mk('arg', 'key'), 0), mk('fld', mk('arg', 'key'), 1)))))
    return out
