"""Parser and normaliser for the SQL texts reaching SQLite, and for the schema script (sqlite dialect subset)."""
import re

TOK = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<blob>[xX]'[0-9a-fA-F]*')|(?P<num>\d+(?:\.\d*)?(?:[eE][+-]?\d+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9$]*)|(?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])|(?P<par>\?\d*|[:@$][A-Za-z_0-9]+)|(?P<op>\|\||<=|>=|<>|!=|==|<<|>>|[-+*/%(),.;=<>&|~])""", re.S)

class SqlError(Exception):
    pass

def tokens(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SqlError('cannot tokenise at %r' % s[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == 'id':
            out.append(('id', t.lower()))
        elif k == 'qid':
            out.append(('qid', t[1:-1].lower()))
        elif k == 'str':
            out.append(('str', t[1:-1].replace("''", "'")))
        elif k == 'num':
            f = float(t)
            out.append(('num', int(f) if f == int(f) else f))
        elif k == 'blob':
            out.append(('blob', t))
        else:
            out.append((k, t))
    return out

AGG = {'max', 'min', 'sum', 'count', 'total', 'avg', 'group_concat'}
STOP = {'from', 'where', 'order', 'group', 'limit', 'returning', 'union', 'having', 'offset', 'as', 'and', 'or', 'asc', 'desc', 'on', 'set', 'values', 'then', 'else', 'end', 'when', 'is', 'in', 'not', 'between', 'like', 'glob', 'collate', 'nulls', 'check', 'unique', 'primary', 'default', 'begin', 'do', 'except', 'intersect', 'escape', 'join', 'inner', 'left', 'cross', 'using', 'indexed'}

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.np = 0
        self.names = {}

    def pk(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('eof', '')

    def isk(self, *kw):
        return all(self.pk(n) == ('id', k) for n, k in enumerate(kw))

    def kw(self, *kw):
        if self.isk(*kw):
            self.i += len(kw)
            return True
        return False

    def op(self, o):
        if self.pk() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise SqlError('expected %s at %r' % (o, self.pk()))

    def needk(self, *k):
        if not self.kw(*k):
            raise SqlError('expected %s at %r' % (k, self.pk()))

    def name(self):
        k, v = self.pk()
        if k in ('id', 'qid', 'str'):
            self.i += 1
            return v.lower()
        raise SqlError('expected name at %r' % ((k, v),))

    # -- expressions
    def expr(self, p=0):
        a = self.unary()
        while True:
            k, v = self.pk()
            if k == 'op':
                pr = {'=': 3, '==': 3, '<>': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '&': 5, '|': 5, '<<': 5, '>>': 5, '+': 6, '-': 6, '*': 7, '/': 7, '%': 7, '||': 8}.get(v)
                if pr is None or pr <= p:
                    return a
                self.i += 1
                b = self.expr(pr)
                a = ('bin', {'==': '=', '!=': '<>'}.get(v, v), a, b)
            elif k == 'id' and v == 'and' and p < 2:
                self.i += 1
                a = ('bin', 'and', a, self.expr(2))
            elif k == 'id' and v == 'or' and p < 1:
                self.i += 1
                a = ('bin', 'or', a, self.expr(1))
            elif k == 'id' and v == 'is' and p < 3:
                self.i += 1
                n = self.kw('not')
                if self.kw('null'):
                    a = ('isnull', a)
                else:
                    if self.kw('distinct'):
                        self.needk('from')
                        n = not n
                    a = ('bin', 'is', a, self.expr(3))
                if n:
                    a = ('not', a)
            elif k == 'id' and v in ('isnull', 'notnull') and p < 3:
                self.i += 1
                a = ('isnull', a) if v == 'isnull' else ('not', ('isnull', a))
            elif k == 'id' and p < 3 and (v in ('in', 'like', 'glob', 'between') or v == 'not' and self.pk(1) in (('id', 'in'), ('id', 'like'), ('id', 'glob'), ('id', 'between'), ('id', 'null'))):
                n = self.kw('not')
                if self.kw('null'):
                    a = ('not', ('isnull', a))
                    continue
                w = self.name()
                if w == 'in':
                    self.need('(')
                    if self.isk('select'):
                        a = ('in', a, self.select())
                    else:
                        l = []
                        while not self.op(')'):
                            l.append(self.expr())
                            self.op(',')
                        self.i -= 1
                        a = ('in', a, tuple(l))
                    self.need(')')
                elif w == 'between':
                    lo = self.expr(3)
                    self.needk('and')
                    hi = self.expr(3)
                    a = ('bin', 'and', ('bin', '>=', a, lo), ('bin', '<=', a, hi))
                else:
                    a = ('bin', w, a, self.expr(4))
                    if self.kw('escape'):
                        self.expr(4)
                if n:
                    a = ('not', a)
            elif k == 'id' and v == 'collate':
                self.i += 1
                a = ('collate', a, self.name())
            else:
                return a

    def unary(self):
        if self.kw('not'):
            return ('not', self.expr(2))
        if self.op('-'):
            e = self.expr(8)
            return ('lit', -e[1]) if e[0] == 'lit' and isinstance(e[1], (int, float)) else ('neg', e)
        if self.op('+'):
            return self.expr(8)
        k, v = self.pk()
        if k == 'op' and v == '(':
            self.i += 1
            if self.isk('select'):
                e = ('sub', self.select())
            else:
                e = self.expr()
                if self.op(','):
                    l = [e]
                    while True:
                        l.append(self.expr())
                        if not self.op(','):
                            break
                    e = ('row', tuple(l))
            self.need(')')
            return e
        if k == 'num':
            self.i += 1
            return ('lit', v)
        if k == 'str':
            self.i += 1
            return ('lit', v)
        if k == 'blob':
            self.i += 1
            return ('blob', v)
        if k == 'par':
            self.i += 1
            if v == '?':
                self.np += 1
                return ('param', self.np)
            if v[0] == '?':
                self.np = max(self.np, int(v[1:]))
                return ('param', int(v[1:]))
            if v not in self.names:
                self.np += 1
                self.names[v] = self.np
            return ('param', self.names[v])
        if k in ('id', 'qid'):
            if k == 'id' and v == 'case':
                self.i += 1
                base = None if self.isk('when') else self.expr()
                arms = []
                while self.kw('when'):
                    c = self.expr()
                    self.needk('then')
                    arms.append((c, self.expr()))
                el = self.expr() if self.kw('else') else ('null',)
                self.needk('end')
                if base is not None:
                    arms = [(('bin', '=', base, c), e) for c, e in arms]
                e = el
                for c, x in reversed(arms):
                    e = ('fn', 'iif', (c, x, e))
                return e
            if k == 'id' and v == 'cast':
                self.i += 1
                self.need('(')
                e = self.expr()
                self.needk('as')
                t = self.name()
                while self.pk()[0] == 'id':
                    t += ' ' + self.name()
                self.need(')')
                return ('cast', e, t)
            if k == 'id' and v == 'null':
                self.i += 1
                return ('null',)
            if k == 'id' and v == 'exists':
                self.i += 1
                self.need('(')
                s = self.select()
                self.need(')')
                return ('exists', s)
            if k == 'id' and v in ('true', 'false'):
                self.i += 1
                return ('lit', int(v == 'true'))
            self.i += 1
            if self.op('('):
                args = []
                if self.op('*'):
                    args = ['*']
                    self.need(')')
                else:
                    self.kw('distinct')
                    while not self.op(')'):
                        args.append(self.expr())
                        self.op(',')
                if self.kw('filter'):
                    self.need('(')
                    self.needk('where')
                    w = self.expr()
                    self.need(')')
                    return ('fn', v, tuple(args), ('filter', w))
                return ('fn', v, tuple(args))
            if self.op('.'):
                if self.op('*'):
                    return ('star', v)
                c = self.name()
                return ('col', c, v)
            return ('col', v)
        raise SqlError('unexpected %r' % ((k, v),))

    # -- statements
    def select(self):
        self.needk('select')
        self.kw('all')
        distinct = self.kw('distinct')
        cols = self.collist()
        frm = []
        where = None
        order = ()
        group = None
        limit = None
        if self.kw('from'):
            while True:
                if self.op('('):
                    if self.isk('select'):
                        s = ('sub', self.select())
                    else:
                        s = self.name()
                    self.need(')')
                else:
                    s = self.name()
                    if self.op('('):
                        a = []
                        while not self.op(')'):
                            a.append(self.expr())
                            self.op(',')
                        s = ('tfn', s, tuple(a))
                al = None
                if self.kw('as'):
                    al = self.name()
                elif self.pk()[0] in ('id', 'qid') and self.pk()[1] not in STOP:
                    al = self.name()
                if self.kw('indexed', 'by'):
                    self.name()
                self.kw('not', 'indexed')
                frm.append((s, al))
                if self.op(','):
                    continue
                if self.kw('inner', 'join') or self.kw('join') or self.kw('cross', 'join'):
                    continue
                if self.kw('on'):
                    c = self.expr()
                    where = c if where is None else ('bin', 'and', where, c)
                break
        if self.kw('where'):
            c = self.expr()
            where = c if where is None else ('bin', 'and', where, c)
        if self.kw('group', 'by'):
            group = self.exprs()
            if self.kw('having'):
                self.expr()
        if self.kw('order', 'by'):
            order = self.orderlist()
        if self.kw('limit'):
            limit = self.expr()
            if self.kw('offset'):
                limit = (limit, self.expr())
        for w in ('union', 'except', 'intersect'):
            if self.kw(w):
                self.kw('all')
                other = self.select()
                return {'k': 'select', 'cols': cols, 'from': frm, 'where': where, 'compound': (w, other), 'order': order, 'limit': limit, 'group': group, 'distinct': distinct}
        return {'k': 'select', 'cols': cols, 'from': frm, 'where': where, 'order': order, 'limit': limit, 'group': group, 'distinct': distinct}

    def exprs(self):
        l = [self.expr()]
        while self.op(','):
            l.append(self.expr())
        return tuple(l)

    def orderlist(self):
        l = []
        while True:
            e = self.expr()
            d = 'asc'
            if self.kw('desc'):
                d = 'desc'
            else:
                self.kw('asc')
            if self.kw('nulls'):
                self.name()
            l.append((e, d))
            if not self.op(','):
                return tuple(l)

    def collist(self):
        l = []
        while True:
            if self.op('*'):
                l.append(('star',))
            else:
                e = self.expr()
                if self.kw('as'):
                    self.name()
                elif self.pk()[0] in ('id', 'qid') and self.pk()[1] not in STOP:
                    self.name()
                l.append(e)
            if not self.op(','):
                return tuple(l)

    def setlist(self):
        sets = []
        while True:
            if self.op('('):
                cs = [self.name()]
                while self.op(','):
                    cs.append(self.name())
                self.need(')')
                self.need('=')
                e = self.expr()
                es = e[1] if e[0] == 'row' else (e,)
                sets.extend(zip(cs, es))
            else:
                c = self.name()
                self.need('=')
                sets.append((c, self.expr()))
            if not self.op(','):
                return tuple(sets)

    def stmt(self):
        if self.isk('select'):
            return self.select()
        if self.isk('with'):
            raise SqlError('with')
        if self.kw('delete'):
            self.needk('from')
            tb = self.name()
            w = self.expr() if self.kw('where') else None
            r = self.collist() if self.kw('returning') else None
            return {'k': 'delete', 'table': tb, 'where': w, 'returning': r}
        if self.kw('update'):
            orr = self.name() if self.kw('or') else None
            tb = self.name()
            self.needk('set')
            sets = self.setlist()
            if self.kw('from'):
                raise SqlError('update from')
            w = self.expr() if self.kw('where') else None
            r = self.collist() if self.kw('returning') else None
            return {'k': 'update', 'table': tb, 'set': sets, 'where': w, 'returning': r, 'or': orr}
        if self.isk('insert') or self.isk('replace'):
            orr = None
            if self.kw('replace'):
                orr = 'replace'
            else:
                self.kw('insert')
                if self.kw('or'):
                    orr = self.name()
            self.needk('into')
            tb = self.name()
            cols = None
            if self.op('('):
                cols = [self.name()]
                while self.op(','):
                    cols.append(self.name())
                self.need(')')
                cols = tuple(cols)
            rows = None
            sel = None
            if self.kw('values'):
                rows = []
                while True:
                    self.need('(')
                    rows.append(self.exprs())
                    self.need(')')
                    if not self.op(','):
                        break
                rows = tuple(rows)
            elif self.kw('default', 'values'):
                rows = ()
            else:
                sel = self.select()
            ups = None
            if self.kw('on', 'conflict'):
                tgt = None
                if self.op('('):
                    tgt = self.exprs()
                    self.need(')')
                self.needk('do')
                if self.kw('nothing'):
                    ups = ('nothing', tgt)
                    orr = 'ignore'
                else:
                    self.needk('update')
                    self.needk('set')
                    ups = ('update', tgt, self.setlist(), self.expr() if self.kw('where') else None)
                    orr = 'upsert'
            r = self.collist() if self.kw('returning') else None
            return {'k': 'insert', 'table': tb, 'cols': cols, 'rows': rows, 'select': sel, 'or': orr, 'upsert': ups, 'returning': r}
        if self.kw('pragma'):
            n = self.name()
            v = None
            if self.op('='):
                v = self.expr()
            elif self.op('('):
                v = self.expr()
                self.need(')')
            return {'k': 'pragma', 'name': n, 'value': v}
        for w in ('vacuum', 'begin', 'commit', 'rollback', 'savepoint', 'release', 'analyze', 'reindex', 'attach', 'detach', 'end'):
            if self.kw(w):
                rest = []
                while self.pk()[0] != 'eof' and self.pk() != ('op', ';'):
                    rest.append(self.pk()[1])
                    self.i += 1
                return {'k': w, 'rest': tuple(rest)}
        if self.kw('drop'):
            w = self.name()
            self.kw('if', 'exists')
            return {'k': 'drop', 'what': w, 'name': self.name()}
        if self.kw('create'):
            uniq = self.kw('unique')
            temp = self.kw('temp') or self.kw('temporary')
            if self.kw('table'):
                return self.create_table()
            if self.kw('index'):
                self.kw('if', 'not', 'exists')
                n = self.name()
                self.needk('on')
                tb = self.name()
                self.need('(')
                cols = self.orderlist()
                self.need(')')
                w = self.expr() if self.kw('where') else None
                return {'k': 'index', 'name': n, 'table': tb, 'cols': cols, 'unique': uniq, 'where': w}
            if self.kw('trigger'):
                self.kw('if', 'not', 'exists')
                n = self.name()
                when = 'before'
                if self.kw('before'):
                    when = 'before'
                elif self.kw('after'):
                    when = 'after'
                elif self.kw('instead', 'of'):
                    when = 'instead'
                ev = self.name()
                of = None
                if ev == 'update' and self.kw('of'):
                    of = [self.name()]
                    while self.op(','):
                        of.append(self.name())
                self.needk('on')
                tb = self.name()
                self.kw('for', 'each', 'row')
                cond = self.expr() if self.kw('when') else None
                self.needk('begin')
                body = []
                while not self.kw('end'):
                    body.append(self.stmt())
                    self.need(';')
                return {'k': 'trigger', 'name': n, 'when': when, 'event': ev, 'of': of, 'table': tb, 'cond': cond, 'body': body}
        raise SqlError('statement %r' % (self.pk(),))

    def create_table(self):
        self.kw('if', 'not', 'exists')
        n = self.name()
        self.need('(')
        cols = []
        cons = []
        while True:
            self.kw('constraint') and self.name()
            if self.isk('unique') or self.isk('primary', 'key'):
                k = 'unique' if self.kw('unique') else (self.kw('primary', 'key') and 'pk')
                self.need('(')
                cs = tuple(x for x, _ in self.orderlist())
                self.need(')')
                self.conflict()
                cons.append((k, cs))
            elif self.kw('check'):
                self.need('(')
                cons.append(('check', self.expr()))
                self.need(')')
            else:
                c = {'name': self.name(), 'type': '', 'notnull': False, 'unique': False, 'pk': False, 'default': None}
                ty = []
                while self.pk()[0] == 'id' and self.pk()[1] not in ('primary', 'not', 'unique', 'default', 'check', 'null', 'collate', 'references', 'constraint', 'generated', 'as'):
                    ty.append(self.name())
                c['type'] = ' '.join(ty)
                while True:
                    if self.kw('constraint'):
                        self.name()
                    elif self.kw('primary', 'key'):
                        c['pk'] = True
                        self.kw('asc') or self.kw('desc')
                        self.conflict()
                        self.kw('autoincrement')
                    elif self.kw('not', 'null'):
                        c['notnull'] = True
                        self.conflict()
                    elif self.kw('null'):
                        pass
                    elif self.kw('unique'):
                        c['unique'] = True
                        self.conflict()
                    elif self.kw('default'):
                        if self.op('('):
                            c['default'] = self.expr()
                            self.need(')')
                        else:
                            c['default'] = self.unary()
                    elif self.kw('check'):
                        self.need('(')
                        cons.append(('check', self.expr()))
                        self.need(')')
                    elif self.kw('collate'):
                        c['collate'] = self.name()
                    else:
                        break
                cols.append(c)
            # table constraints may follow without a comma
            if self.op(','):
                continue
            if self.isk('check') or self.isk('unique') or self.isk('primary', 'key') or self.isk('constraint'):
                continue
            break
        self.need(')')
        opts = []
        while self.pk()[0] == 'id':
            if self.kw('without', 'rowid'):
                opts.append('without rowid')
            else:
                opts.append(self.name())
            self.op(',')
        return {'k': 'table', 'name': n, 'cols': cols, 'cons': cons, 'opts': opts}

    def conflict(self):
        if self.kw('on', 'conflict'):
            self.name()

_cache = {}

def parse(sql):
    """list of statements; raises SqlError"""
    if sql in _cache:
        return _cache[sql]
    p = P(tokens(sql))
    out = []
    while p.pk()[0] != 'eof':
        if p.op(';'):
            continue
        out.append(p.stmt())
    _cache[sql] = out
    return out

def param_names(sql):
    """names of named parameters, in the order of their positions"""
    try:
        p = P(tokens(sql))
        while p.pk()[0] != 'eof':
            if not p.op(';'):
                p.stmt()
    except SqlError:
        return []
    return sorted(p.names, key=p.names.get)

def one(sql):
    l = parse(sql)
    return l[0] if len(l) == 1 else None

def walk(e):
    yield e
    if isinstance(e, dict):
        for v in e.values():
            if isinstance(v, (dict, tuple, list)):
                yield from walk(v)
    elif isinstance(e, (tuple, list)):
        for v in e:
            if isinstance(v, (dict, tuple, list)):
                yield from walk(v)

def has_agg(e):
    if isinstance(e, tuple) and e and e[0] == 'fn' and (e[1] in AGG) and not (e[1] in ('max', 'min') and len(e[2]) > 1):
        return True
    if isinstance(e, tuple) and e and e[0] == 'sub':
        return False
    if isinstance(e, tuple):
        return any(has_agg(x) for x in e if isinstance(x, tuple))
    return False

def readonly(sql):
    try:
        l = parse(sql)
    except SqlError:
        return bool(re.match(r'\s*select\b', sql, re.I))
    return all(s['k'] == 'select' or s['k'] == 'pragma' and s['value'] is None for s in l)

def info(sql):
    try:
        l = parse(sql)
    except SqlError:
        k = (re.findall(r'[a-z]+', sql.lower()) or ['?'])[0]
        return {'readonly': k == 'select', 'always_row': False, 'kind': k, 'or': None, 'parsed': False}
    if not l:
        return {'readonly': True, 'always_row': False, 'kind': 'empty', 'or': None, 'parsed': True}
    s = l[0]
    ar = False
    if s['k'] == 'select':
        ar = (not s['from'] and s['where'] is None) or (any(has_agg(c) for c in s['cols']) and s['group'] is None and s['limit'] is None)
    return {'readonly': readonly(sql), 'always_row': ar, 'kind': s['k'], 'or': s.get('or'), 'parsed': True}

# ------------------------------------------------------------------ normal form of predicates

FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '=', '<>': '<>', 'is': 'is'}

def norm(e):
    """canonical expression: unqualified columns, comparisons with the column first, constants folded"""
    if isinstance(e, dict):
        return ('select', tuple(sorted((k, repr(v)) for k, v in e.items())))
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'col':
        return ('col', e[1]) if len(e) == 2 or e[2] not in ('old', 'new') else e
    if e[0] in ('lit', 'param', 'null', 'blob'):
        return e
    if e[0] == 'bin':
        op, a, b = e[1], norm(e[2]), norm(e[3])
        if op in FLIP:
            if b[0] == 'col' and a[0] != 'col':
                a, b, op = b, a, FLIP[op]
            elif a[0] not in ('col',) and b[0] not in ('col',) and repr(a) > repr(b):
                a, b, op = b, a, FLIP[op]
            elif a[0] == 'col' and b[0] == 'col' and repr(a) > repr(b):
                a, b, op = b, a, FLIP[op]
            return ('bin', op, a, b)
        if op in ('+', '*'):
            l = []
            def flat(x):
                if x[0] == 'bin' and x[1] == op:
                    flat(x[2]); flat(x[3])
                else:
                    l.append(x)
            flat(a); flat(b)
            l.sort(key=repr)
            nums = [x[1] for x in l if x[0] == 'lit' and isinstance(x[1], (int, float))]
            rest = [x for x in l if not (x[0] == 'lit' and isinstance(x[1], (int, float)))]
            if nums:
                v = 0 if op == '+' else 1
                for n in nums:
                    v = v + n if op == '+' else v * n
                if int(v) == v:
                    v = int(v)
                if not (op == '+' and v == 0 or op == '*' and v == 1) or not rest:
                    rest.append(('lit', v))
            r = rest[0]
            for x in rest[1:]:
                r = ('bin', op, r, x)
            return r
        return ('bin', op, a, b)
    if e[0] == 'not':
        x = norm(e[1])
        if x[0] == 'not':
            return x[1]
        if x[0] == 'bin' and x[1] in ('<', '<=', '>', '>=', '=', '<>'):
            return ('bin', {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '=': '<>', '<>': '='}[x[1]], x[2], x[3])
        return ('not', x)
    if e[0] == 'fn':
        return ('fn', 'iif' if e[1] == 'if' else e[1], tuple(norm(x) for x in e[2])) + tuple(e[3:])
    return tuple(norm(x) if isinstance(x, (tuple, dict)) else x for x in e)

def conjuncts(e):
    """set of normalised conjuncts"""
    if e is None:
        return frozenset()
    out = set()
    def go(x):
        if x[0] == 'bin' and x[1] == 'and':
            go(x[2]); go(x[3])
        else:
            n = norm(x)
            if n == ('lit', 1):
                return
            # row value comparison (a,b)=(c,d)
            if n[0] == 'bin' and n[1] == '=' and n[2][0] == 'row' and n[3][0] == 'row':
                for a, b in zip(n[2][1], n[3][1]):
                    go(('bin', '=', a, b))
                return
            out.add(n)
    go(e)
    return frozenset(out)


def result_names(sql):
    """result column names of a select / returning list (None for computed columns)"""
    try:
        l = parse(sql)
    except SqlError:
        return []
    if len(l) != 1:
        return []
    cols = l[0].get('cols') if l[0]['k'] == 'select' else l[0].get('returning')
    return [c[1] if c[0] == 'col' else None for c in cols or ()]
