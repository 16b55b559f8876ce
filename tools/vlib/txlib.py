"""Manifest transactions along one abstract path."""
import re
from . import sqlan
from .rulelib import *
from .models import seqparts

class Ex:
    """one statement execution"""
    def __init__(self, i, e, tx):
        self.i, self.e, self.tx = i, e, tx
        self.id = e.d.get('id')
        self.outcome = e.outcome
        self.text = e.sql.a[0].decode('utf8', 'replace') if e.sql.op == 'str' else None
        self.params = [p[1] for p in e.params]
        self.ptypes = [p[0] for p in e.params]
        self.sts = None
        if self.text is not None:
            try:
                self.sts = sqlan.parse(self.text)
            except sqlan.SqlError:
                self.sts = None
        self.s = self.sts[0] if self.sts and len(self.sts) == 1 else None
        self.readonly = self.text is not None and sqlan.readonly(self.text)
        self.names = sqlan.result_names(self.text) if self.text is not None else []
        self.rows = []           # (index, k) of rows seen
        self.ended = None        # 'end' / 'err' / None for a row loop
        if self.outcome == 'row' and e.op == 'query_row':
            self.rows.append((i, 0))

    @property
    def k(self):
        return self.s['k'] if self.s else None

    def table(self):
        return self.s.get('table') if self.s else None

    def ok(self):
        return self.outcome in ('row', 'norows', 'rows', 'done')

    def sets(self):
        return [c for c, _ in self.s['set']] if self.k == 'update' else []

    def param(self, n):
        return self.params[n - 1] if 0 < n <= len(self.params) else None

    def content(self):
        """changes which keys exist or where their values are (or is not understood)"""
        if self.readonly or self.text is None and self.e.op == 'prepare':
            return False
        if self.sts is None:
            return True
        return any(_content(s) for s in self.sts)

    def where_param(self, col):
        """the term bound to `col` = ? in the where clause"""
        if not self.s or not self.s.get('where'):
            return None
        for c in sqlan.conjuncts(self.s['where']):
            if c[0] == 'bin' and c[1] in ('=', 'is') and c[2] == ('col', col) and c[3][0] == 'param':
                return self.param(c[3][1])
        return None

    def single_row(self):
        """can match at most one row (unique key, or limit 1 on the primary key)"""
        w = self.s and self.s.get('where')
        if not w:
            return False
        cs = sqlan.conjuncts(w)
        cols = {c[2][1] for c in cs if c[0] == 'bin' and c[1] in ('=', 'is') and c[2][0] == 'col' and c[3][0] in ('param', 'lit')}
        if 'key' in cols or 'key_id' in cols or {'file_id', 'file_offset'} <= cols:
            return True
        for c in sqlan_raw_conj(w):
            sel = None
            if c[0] == 'in' and c[1] == ('col', 'key_id') and isinstance(c[2], dict):
                sel = c[2]
            if c[0] == 'bin' and c[1] == '=' and c[2] == ('col', 'key_id') and isinstance(c[3], tuple) and c[3][0] == 'sub':
                sel = c[3][1]
            if sel is not None and (sel.get('limit') == ('lit', 1) or c[0] == 'bin'):
                return True
        return False

    def desc(self):
        return ' '.join((self.text or show(self.e.sql)).split())

def sqlan_raw_conj(w):
    if w[0] == 'bin' and w[1] == 'and':
        return sqlan_raw_conj(w[2]) + sqlan_raw_conj(w[3])
    return [w]

def _content(s):
    if s['k'] == 'select' or s['k'] == 'pragma' and s.get('value') is None:
        return False
    if s['k'] == 'update' and s['table'] == 'keys' and [c for c, _ in s['set']] == ['last_used'] and not s.get('or'):
        return False
    return True

class Tx:
    def __init__(self, id):
        self.id = id
        self.behavior = None
        self.begin = None
        self.guards = ()
        self.ex = []
        self.commit = None       # index of the successful commit
        self.commit_failed = None
        self.rolled = None
        self.conn = None

    def first(self, write):
        for x in self.ex:
            if x.ok() and (not x.readonly) == write and x.e.op != 'prepare':
                return x
        return None

class Scan:
    pass

def scan(tr):
    S_ = Scan()
    S_.txs = {}
    S_.order = []
    S_.exs = {}
    S_.sends = []
    S_.unlock = {}
    S_.loose = []
    held = {}
    def tx(t):
        k = t
        if k not in S_.txs:
            S_.txs[k] = Tx(k)
            S_.order.append(S_.txs[k])
        return S_.txs[k]
    for i, e in enumerate(tr.events):
        k = e.k
        if k == 'lock':
            if 'rusqlite::Connection' in e.cls:
                held[e.id] = i
        elif k == 'unlock':
            held.pop(e.id, None)
            S_.unlock[e.id] = i
        elif k == 'begin':
            if e.outcome == 'ok' and not e.d.get('raw'):
                t = tx(e.tx)
                t.behavior, t.begin, t.conn = e.behavior, i, e.conn
                t.guards = tuple(held)
        elif k == 'exec':
            t = None
            if e.conn.op in ('tx',) or e.conn in S_.txs or not _isconn(e.conn):
                t = tx(e.conn)
            x = Ex(i, e, t)
            if t is not None:
                t.ex.append(x)
            else:
                S_.loose.append(x)
            S_.exs[x.id] = x
        elif k == 'rownext':
            if e.id in S_.exs:
                S_.exs[e.id].rows.append((i, e.k_ if hasattr(e, 'k_') else e.d['k']))
        elif k == 'rowerr':
            if e.id in S_.exs:
                S_.exs[e.id].ended = 'err'
        elif k == 'iterend':
            if e.d.get('id') in S_.exs:
                S_.exs[e.d['id']].ended = 'end'
        elif k == 'commit' and not e.d.get('raw'):
            t = tx(e.tx)
            if e.outcome == 'ok':
                t.commit = i
            else:
                t.commit_failed = i
        elif k in ('rollback', 'txdrop') and not e.d.get('raw'):
            t = tx(e.tx)
            if t.rolled is None:
                t.rolled = i
        elif k == 'send':
            S_.sends.append((i, e))
    return S_

def _isconn(t):
    return False

# ------------------------------------------------------------------ rows and columns

def colref(t):
    """(execid, k, idx) of a column term, looking through Some(_)"""
    if t.op == 'fld' and t.a[0].op == 'as':
        t = t.a[0].a[0]
    if t.op == 'col':
        return t.a[:3]
    if t.op == 'agg' and len(t.a[2]) == 1 and t.a[0].startswith('std::option::Option<'):
        return colref(t.a[2][0])
    return None

def rowcol(x, k, name):
    """(execid, k, idx) of the named result column of row k"""
    return (x.id, k, x.names.index(name)) if name in x.names else None

def known_cols(tr):
    """column terms the path knows anything about"""
    S_ = getattr(tr, '_cols', None)
    if S_ is None:
        S_ = {}
        for f in tr.facts:
            if isinstance(f, Term):
                for t in subterms(f):
                    if t.op == 'col':
                        S_.setdefault(t.a[:3], t)
        tr._cols = S_
    return S_

def is_empty_row(tr, x, k):
    """is the removed row known to be an empty value?"""
    cs = known_cols(tr)
    r = rowcol(x, k, 'value_length')
    if r in cs:
        d = tr.I.decide(tr.st, eq0(cs[r]))
        if d is not None:
            return d
    r = rowcol(x, k, 'file_id')
    if r in cs:
        d = tr.facts.get(mk('discr', cs[r]))
        if d == 0:
            return True
        if d == 1:
            return False
    return None

def deletes_rows(x):
    """kinds of row removal a statement can do: 'delete', 'replace'"""
    if x.k == 'delete' and x.s['table'] == 'keys':
        return 'delete'
    if x.k in ('insert', 'update') and x.s['table'] == 'keys':
        o = x.s.get('or')
        if o == 'replace':
            return 'replace'
        if x.s.get('upsert'):
            return 'upsert'
    return None

def structf(P, name):
    """field name -> index of a struct of the analysed crate"""
    for t in P.T:
        b = t['n'].split('<')[0]
        if t['k'] == 'adt' and t['kind'] == 'struct' and (b == name or b.endswith('::' + name)):
            return {f[0]: i for i, f in enumerate(t['variants'][0]['f'])}
    raise Missing('struct ' + name)

def field_of_type(P, owner, tyname):
    for t in P.T:
        if t['k'] == 'adt' and t['kind'] == 'struct' and (t['n'] == owner or t['n'].endswith('::' + owner)):
            for i, f in enumerate(t['variants'][0]['f']):
                n = P.T[f[1]].get('n', '')
                if n == tyname or n.endswith('::' + tyname):
                    return i
    raise Missing('field of type %s in %s' % (tyname, owner))

def location(P, v):
    """(file_id, offset, length) terms of a NonzeroValueLocation aggregate"""
    if v.op != 'agg' or not v.a[0].endswith('NonzeroValueLocation'):
        return None
    n = structf(P, 'NonzeroValueLocation')
    f = v.a[2]
    try:
        return f[n['file_id']], f[n['file_offset']], f[n['length']]
    except KeyError as e:
        raise Missing('NonzeroValueLocation field %s' % e)

# ------------------------------------------------------------------ roots

def fnnamed(P, sel, sub=None):
    fs = find(P, sel)
    if sub:
        fs = [f for f in fs if sub in f['name']]
    if not fs:
        raise Missing('no function matching ' + sel)
    return fs

SMALL = dict(K=2, elem_cap=1, elem_total=1)

def okret(v):
    k, x = vkind(v)
    return x if k == 'ok' else None

def stop(v):
    return v

def calls(P, *steps):
    """script of calls; each step is (fn, argbuilder(env, I, st)); a non-Ok result ends the script"""
    out = []
    def mkstep(f, ab):
        def go(I_, st, env):
            for v in env:
                if isinstance(v, Term) and v.op == 'agg' and v.a[0].startswith('std::result::Result<') and v.a[1] == 1:
                    return v
            a = ab(env, I_, st)
            if isinstance(a, Term):
                return a
            return ('call', f['id'], a)
        return go
    for f, ab in steps:
        out.append(mkstep(f, ab))
    return out

def read_script(nkeys=2, begin=True):
    """Handle::read, lookups of distinct keys, Reader::begin"""
    def mkscript(P):
        rd = need(P, 'Handle::read')
        ad = fnnamed(P, 'Reader::add', 'OwnedTx')[0]
        bg = fnnamed(P, 'Reader::begin', 'OwnedTx')[0]
        steps = [lambda I_, st, env: ('call', rd['id'], [mk('arg', 'self')])]
        def addn(n):
            def go(I_, st, env):
                if n == 0:
                    r = okret(env[0])
                    if r is None:
                        return env[0]
                    st.x['r'] = I_.alloc(st, r)
                elif okret(env[-1]) is None:
                    return env[-1]
                return ('call', ad['id'], [st.x['r'], mk('arg', 'key%d' % n)])
            return go
        for n in range(nkeys):
            steps.append(addn(n))
        def bgn(I_, st, env):
            if okret(env[-1]) is None:
                return env[-1]
            return ('call', bg['id'], [I_.load(st, st.x['r'])])
        if begin:
            steps.append(bgn)
        return steps
    return mkscript

def c_ok(P, v):
    return v.op == 'agg' and variant_name(P, v) == 'NoError'

def c_read_script(nkeys=1, tail=()):
    """possum_reader_new, possum_reader_add …, possum_reader_begin, then tail(reader, values) calls"""
    def mkscript(P):
        f = {n: need(P, 'ext:possum_' + n) for n in ('reader_new', 'reader_add', 'reader_begin')}
        def new(I_, st, env):
            st.x['out'] = I_.alloc(st, mk('undef'))
            return ('call', f['reader_new']['id'], [mk('arg', 'handle'), st.x['out']])
        def addn(n):
            def go(I_, st, env):
                if not c_ok(P, env[-1]):
                    return env[-1]
                st.x['vout%d' % n] = I_.alloc(st, mk('undef'))
                return ('call', f['reader_add']['id'], [I_.load(st, st.x['out']), mk('arg', 'key%d' % n), st.x['vout%d' % n]])
            return go
        def bgn(I_, st, env):
            if not c_ok(P, env[-1]) and variant_name(P, env[-1]) != 'NoSuchKey':
                return env[-1]
            return ('call', f['reader_begin']['id'], [I_.load(st, st.x['out'])])
        return [new] + [addn(n) for n in range(nkeys)] + [bgn] + list(tail)
    return mkscript

def fresh_file(e, st):
    """keep only the paths where a new values file is used, without contention"""
    return e.k == 'open' and 'create' not in e.flags and 'create_new' not in e.flags or e.d.get('outcome') == 'again'

def write_roots(P, judge=None, reads=True, cfg=None, kinds=None):
    """every public operation that changes the manifest"""
    out = []
    def add(name, sel, sub=None, **kw):
        if kinds is not None and name not in kinds:
            return
        f = fnnamed(P, sel, sub)[0]
        c = dict(cfg or {})
        c.update(kw.pop('cfg', {}))
        out.append(Job(name, f, judge=judge, cfg=c, **kw))
    add('delete', 'Handle::single_delete')
    add('rename', 'Handle::rename_item')
    add('move-prefix', 'Handle::move_prefix')
    add('delete-prefix', 'Handle::delete_prefix')
    add('set-limits', 'Handle::set_instance_limits', args=A('self', 'limits'))
    add('commit', 'BatchWriter::commit', '<&')
    add('c-commit', 'ext:possum_writer_commit', cfg=dict(K=2))
    add('single-write', 'Handle::single_write_from', cfg=dict(K=2, elem_total=1, err_cap=0), prune=fresh_file)
    if reads:
        if kinds is None or 'read' in kinds:
            out.append(Job('read', None, script=read_script(1), judge=judge, cfg=dict(SMALL, **(cfg or {}))))
        if kinds is None or 'c-read' in kinds:
            out.append(Job('c-read', None, script=c_read_script(1), judge=judge, cfg=dict(SMALL, **(cfg or {}))))
    return out

def every_op(P, judge, cfg=None, scripts=True):
    """every public operation of the library and of the C interface, and reading through both"""
    out = []
    c = dict(K=2, elem_total=1, max_traces=30000)
    c.update(cfg or {})
    pr = either(quiet_send, nolimit(P))
    for f in P.F:
        if 'blocks' not in f or not (f.get('pub') or f.get('ext')) or '{closure' in f['path'] or not P.local(f) or _generic(P, f):
            continue
        tys = [P.T[t].get('n', '') for t in f['locals'][1:f['argc'] + 1]] if f.get('locals') else []
        n = re.sub(r"<.*", '', f['name']) + '::' + f['name'].split('::')[-1] if '<' in f['name'] else f['name']
        writes_ = re.search(r'::(single_write_from|clone_from_file|possum_single_write_buf)\b', f['name'])
        out.append(Job(f['name'], f, judge=judge, cfg=dict(c, K=1) if writes_ else c, prune=either(pr, fresh_file) if writes_ else pr))
    if scripts:
        out.append(Job('read', None, script=read_script(1), judge=judge, cfg=dict(c)))
        out.append(Job('c-read', None, script=c_read_script(1), judge=judge, cfg=dict(c, K=1), prune=pr))
    return out

def _generic(P, f):
    from . import check
    return check.is_generic(P, f)

def succeeded(tr):
    """True / False for a return value that reports success / failure, None if it cannot fail"""
    v = tr.value
    if tr.outcome != 'ret' or not isinstance(v, Term):
        return None
    k, _ = vkind(v)
    if k in ('ok', 'err'):
        return k == 'ok'
    if v.op == 'agg' and v.a[0].endswith('PossumError'):
        return variant_name(tr.I.P, v) == 'NoError'
    if v is I((1 << 64) - 1):
        return False
    return None

def nolimit(P):
    """keep only the paths without a capacity limit"""
    il = field_of_type(P, 'handle::Handle', 'Limits')
    im = structf(P, 'handle::Limits').get('max_value_length_sum')
    def p(e, st):
        return e.k == 'discr' and e.v == 1 and e.eq and e.t.op == 'fld' and e.t.a[1] == im and e.t.a[0].op == 'fld' and e.t.a[0].a[1] == il
    return p

def either(*ps):
    return lambda e, st: any(p(e, st) for p in ps)

def quiet_send(e, st):
    return e.k == 'send' and e.outcome != 'ok'

def elems_in(t):
    """(sequence, index) of every element a term is made from"""
    return {(x.a[0], x.a[1]) for x in subterms(t) if x.op == 'elem'}

def seq_field(P, owner, elemty):
    for t in P.T:
        if t['k'] == 'adt' and t['kind'] == 'struct' and (t['n'].split('<')[0] == owner or t['n'].split('<')[0].endswith('::' + owner)):
            for i, f in enumerate(t['variants'][0]['f']):
                n = P.T[f[1]].get('n', '')
                if n.startswith('std::vec::Vec<') and n[14:-1].split('::')[-1] == elemty:
                    return i
    raise Missing('field Vec<%s> of %s' % (elemty, owner))

# ------------------------------------------------------------------ schema

def schema(ctx):
    """statements of every batch executed while a manifest is created, and the dbconfig/pragma settings made"""
    from . import check, interp, models
    P = ctx.prog()
    f = need(P, 'Handle::new')
    texts, sets = [], []
    class C:
        pass
    def judge(tr, coll):
        for e in tr.events:
            if e.k == 'exec':
                t = e.sql.a[0].decode('utf8', 'replace') if e.sql.op == 'str' else None
                if (t, e.op) not in texts:
                    texts.append((t, e.op))
            elif e.k in ('pragma', 'dbconfig'):
                r = repr(e)
                if r not in sets:
                    sets.append(r)
    check._deadline = 1e18
    check.run_one(ctx, Job('schema', f, judge=judge, cfg=dict(K=2, elem_total=0, err_cap=0, max_traces=20000), prune=lambda e, st: e.k == 'spawn'), Coll('schema'))
    out = []
    for t, op in texts:
        if t is None:
            raise Missing('constant SQL text in the manifest initialisation')
        out += sqlan.parse(t)
    return out, sets

def table(sch, name):
    r = [s for s in sch if s['k'] == 'table' and s['name'] == name]
    if len(r) != 1:
        raise Missing('one definition of table %s in the schema (found %d)' % (name, len(r)))
    return r[0]
