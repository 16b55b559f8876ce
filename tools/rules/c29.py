import re
from vlib.rulelib import *
from vlib.check import find, Job, run_one, Coll
from vlib import txlib, errlib, check, fslib
from rules import c26

ID = 'C29'
RULE = '''
The name of a values file is "values-" and its id as eight lower case hex digits, wherever one is made: on every path of every public
operation, a path ending in a name made from an id has exactly that form, is made from an id as it is (recorded in a row, kept in an
open file, parsed from a name, or random for a file that is created), in the handle's directory, one given by the caller, or a snapshot
directory.  Every function from a name (or a listed entry) to an id returns, on each path whose conditions such a name can meet, the id parsed from the digits after
the prefix, as the whole type and in base 16; so the two are inverse.  An id is stored as, and read back from, an integer that can hold every
id.  An open values file is kept together with the id in the path it was opened at, and the files a handle keeps are keyed by their id.  Listing a directory
shows each plain file with such a name as a values file (in a snapshot directory, as a snapshot value), and nothing else; a writer looking for
existing files tries each file with such a name.
'''
FLOORS = {'path': 10, 'parse': 3, 'walk': 3, 'pair': 2, 'column': 2, 'existing': 1}
ASSUME = ['whether a name derived in the command line tool is used at all is up to its caller']
PREFIX = b'values-'
HEX = set(b'0123456789abcdef')
WIDE = ('u32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize')
INTS = WIDE + ('i32', 'u16', 'i16', 'u8', 'i8')

def flat(t):
    """a name as its literal and formatted parts"""
    if t.op in ('fmt', 'cat'):
        out = []
        for x in t.a[0]:
            out += flat(x)
        return out
    if t.op in ('vec', 'arr') and t.a[0] and all(x.op == 'int' for x in t.a[0]):
        return [mk('str', bytes(x.a[0] & 255 for x in t.a[0]))]
    return [t]

def last(p):
    """(directory, last component) of a path"""
    if p.op == 'join':
        return p.a[0], p.a[1]
    return None, p

def canonical(parts):
    """the id of which this is the name, or None"""
    if len(parts) == 2 and parts[0].op == 'str' and parts[0].a[0] == PREFIX and parts[1].op == 'fa' and parts[1].a[0] == 'lower_hex':
        spec = parts[1].a[2]
        if isinstance(spec, tuple):
            flags, width, prec = spec
            width = width.a[0] if isinstance(width, Term) and width.op == 'int' else width
            if flags & (1 << 24) and width == 8 and not flags & (1 << 23 | 1 << 21) and prec is None:
                return parts[1].a[1]
    return None

def strip(n):
    """(name, what was stripped off it)"""
    if n.op == 'strip' and n.a[1].op == 'str':
        return n.a[0], n.a[1].a[0]
    return n, b''

def truth(t, n, full):
    """the value of a condition when n is a values file name (full) or the digits of one"""
    if t.op == 'utf8' and t.a[0] is n:
        return True
    if t.op == 'pfx' and t.a[0] is n and t.a[1].op == 'str':
        s = t.a[1].a[0]
        if full:
            if PREFIX.startswith(s):
                return True
            if not s.startswith(PREFIX):
                return False
            s = s[len(PREFIX):]
        return True if not s else None if len(s) <= 8 and set(s) <= HEX else False
    if t.op == 'parses':
        b, p = strip(t.a[0])
        if b is not n:
            return None
        r = t.a[2].a[0] if len(t.a) > 2 and t.a[2].op == 'int' else 10
        if p != (PREFIX if full else b''):
            return False if t.a[1] in INTS and full and not p else None
        if t.a[1] in INTS:
            return True if r == 16 and t.a[1] in WIDE else None
        return False if t.a[1] in ('bool', 'char') else None
    return None

def meets(tr, n, full=True):
    for t, v in tr.facts.items():
        if isinstance(t, Term) and isinstance(v, bool):
            k = truth(t, n, full)
            if k is not None and k is not v:
                return False
    return True

def names(tr, rooted=None):
    """the names the path looked at"""
    out = []
    for t in list(tr.facts):
        if isinstance(t, Term):
            for x in c26.subterms(t):
                if x.op in ('pfx', 'parses', 'utf8') and isinstance(x.a[0], Term):
                    n = strip(x.a[0])[0]
                    if n not in out:
                        out.append(n)
    return out

def rightid(t, n, full):
    want = mk('strip', n, mk('str', PREFIX)) if full else n
    if t.op == 'trunc':
        t = t.a[0]
    return t.op == 'parsed' and t.a[0] is want and t.a[1] in WIDE and len(t.a) > 2 and t.a[2] is I(16)

def inner(P, t):
    """the number of a FileId"""
    return t.a[2][0] if t.op == 'agg' and t.a[0].split('::')[-1] == 'FileId' and len(t.a[2]) == 1 else mk('fld', t, 0)

def opaque(t):
    return any(x.op in ('opq', 'top', 'unk') for x in c26.subterms(t))

def tyname(P, t):
    T = P.T[t]
    while T['k'] == 'ref':
        T = P.T[T['t']]
    return T.get('n', '')

# ---------------------------------------------------------------- names to ids

def to_id(P, f):
    """the index of the argument that is a name, for a function from a name to an id"""
    r = P.T[f['locals'][0]].get('n', '')
    if not re.match(r'(std|core)::(result::Result|option::Option)<(\w+::)*FileId\b', r) or f['argc'] != 1:
        return None
    a = tyname(P, f['locals'][1])
    if re.search(r'(^str|OsStr|OsString|String|Path|PathBuf|walk::Entry|DirEntry)$', a):
        return a
    return None

def values_kinds(P):
    for t in P.T:
        if t['k'] == 'adt' and t.get('n', '').endswith('walk::EntryType'):
            vs = [v['n'] for v in t['variants']]
            return {i: n for i, n in enumerate(vs)}
    return {}

def parse_judge(name, kind):
    def judge(tr, coll):
        P = tr.I.P
        if tr.outcome == 'panic' and any(meets(tr, n, kind.endswith('str') and kind == 'str' and False or True) for n in names(tr)):
            coll.bad('%s:panic' % name, '%s: panics for the name of a values file' % name, None, tr)
        if tr.outcome != 'ret':
            return
        k, v = rkind(tr)
        o, ov = vkind(tr.value)
        if o not in ('ok', 'err'):
            o, ov = optkind(tr.value)
        good = o in ('ok', 'some')
        ns = names(tr)
        if not ns:
            if kind.endswith('Entry'):
                vk = values_kinds(P)
                for t, x in tr.facts.items():
                    if isinstance(t, Term) and t.op == 'discr' or isinstance(x, (int, frozenset)) and not isinstance(x, bool):
                        could = set(vk) - set(x) if isinstance(x, frozenset) else {x}
                        if not any(vk.get(i) in ('ValuesFile', 'SnapshotValue') for i in could):
                            return
            if any(t.op == 'hasfname' and v is False for t, v in tr.facts.items() if isinstance(t, Term)):
                return
        forms = [True, False] if kind in ('str', 'std::string::String') else [True]
        for full in forms:
            key = 'form?:%s:%s:%s' % (name, 'name' if full else 'digits', ''.join('1' if x else '0' for x in forms))
            for n in ns or [None]:
                if n is not None and not meets(tr, n, full):
                    coll.ok('parse', name)
                    continue
                if n is not None and good and ov is not None:
                    t = inner(P, tr.I.resolve(tr.st, ov))
                    if rightid(t, n, full) or opaque(t):
                        coll.ok('parse', name)
                        continue
                    coll.bad(key, '%s: the id for a values file name is %s' % (name, show(t)[:100]), None, tr)
                elif n is not None and any(opaque(t) for t in tr.facts if isinstance(t, Term)):
                    coll.ok('parse', name)
                else:
                    coll.bad(key, '%s: the name of a values file can be refused' % name, None, tr)
    return judge

# ---------------------------------------------------------------- listing

def walk_judge(name):
    def judge(tr, coll):
        P = tr.I.P
        if tr.outcome != 'ret' or txlib.succeeded(tr) is False:
            return
        vk = values_kinds(P)
        fields = txlib.structf(P, 'walk::Entry')
        got = {}
        v = tr.value
        for x in c26.subterms(v):
            if x.op == 'agg' and x.a[0].endswith('walk::Entry'):
                p, k = x.a[2][fields['path']], x.a[2][fields['entry_type']]
                got[p] = vk.get(k.a[1]) if k.op == 'agg' else None
        for t, has in tr.facts.items():
            if not (isinstance(t, Term) and t.op == 'has' and t.a[0].op == 'rd' and isinstance(t.a[1], int)) or has is not True:
                continue
            e = next((x for y in tr.events if y.k == 'fs' and y.op == 'read_dir' and y.d.get('ret') is not None and y.ret.op == 'it' and y.ret.a[1] == t.a[0].a[0] for x in [y]), None)
            if e is None:
                continue
            d = e.path
            ent = mk('dirent', t.a[0].a[0], t.a[1], d)
            n = mk('entname', ent)
            p = mk('join', d, n)
            insnap = d.op == 'join' and d.a[1].op == 'entname'
            file_ = tr.facts.get(mk('isfile', mk('enttype', ent)))
            g = got.get(p)
            want = 'SnapshotValue' if insnap else 'ValuesFile'
            if g in ('ValuesFile', 'SnapshotValue'):
                shown = any(a and b.op == 'pfx' and b.a[0] is n and b.a[1].op == 'str' and b.a[1].a[0].startswith(PREFIX) for b, a in tr.facts.items() if isinstance(b, Term) and a is True)
                if g != want:
                    coll.bad('%s:kind' % name, '%s: lists a file %s a snapshot directory as %s' % (name, 'in' if insnap else 'outside', g), e, tr)
                elif file_ is not True or not shown:
                    coll.bad('%s:other' % name, '%s: lists something that is not a plain file named like a values file as %s' % (name, g), e, tr)
                else:
                    coll.ok('walk', name)
            elif meets(tr, n) and file_ is not False and not symlink(tr, ent):
                coll.bad('%s:missed' % name, '%s: a values file is listed as %s' % (name, g or 'nothing'), e, tr)
            else:
                coll.ok('walk', name)
    return judge

def symlink(tr, ent):
    ty = mk('enttype', ent)
    return any(v is True and t.op in ('isdir', 'issymlink') and t.a[0] is ty for t, v in tr.facts.items() if isinstance(t, Term))

# ---------------------------------------------------------------- paths

def dirok(d):
    if d is None:
        return False
    if d.op == 'tdpath':
        return all(dirok(x) for x in d.a[0].a if isinstance(x, Term) and x.op != 'str')
    return not any(x.op in ('str', 'fmt', 'join', 'entname', 'parent', 'opq', 'ntfpath') for x in c26.subterms(d))

def idok(x):
    return not any(y.op in ('lin', 'add', 'sub', 'trunc', 'bin', 'xor', 'floor') for y in c26.subterms(x)) and x.op in ('fld', 'rnd', 'col', 'parsed', 'arg', 'deref')

def paths_of(e):
    for k in ('path', 'to', 'from'):
        v = e.d.get(k)
        if isinstance(v, Term):
            yield v

def op_judge(name):
    def judge(tr, coll):
        P = tr.I.P
        opened = {}
        tried = set()
        listed = {}
        creates = None
        for e in tr.events:
            if e.k == 'fs' and e.op == 'read_dir' and e.outcome == 'ok' and e.ret.op == 'it':
                listed[e.ret.a[1]] = e
            if e.k not in ('open', 'fs'):
                continue
            for p in paths_of(e):
                d, n = last(p)
                ps = flat(n)
                if e.k == 'open':
                    tried.add(p)
                    if e.outcome == 'ok':
                        opened[e.file] = p
                    if creates is None and listed and {'create', 'create_new'} & set(e.flags) and canonical(ps) is not None:
                        creates = e
                if not any(x.op == 'fa' for x in ps):
                    continue
                x = canonical(ps)
                if x is None:
                    coll.bad('path:form', 'a values file is looked for under the name %s' % show(n)[:120], e, tr)
                elif not dirok(d):
                    coll.bad('path:dir', "a values file is looked for in %s, not the handle's directory or a snapshot's" % (show(d)[:100] if d is not None else 'the current directory'), e, tr)
                elif not idok(x):
                    coll.bad('path:id', 'a values file is looked for under the id %s' % show(x)[:100], e, tr)
                else:
                    coll.ok('path', show(p)[:120])
        # an open values file and its id
        fi, ii = txlib.field_of_type(P, 'ExclusiveFile', 'fs::File'), txlib.field_of_type(P, 'ExclusiveFile', 'FileId')
        seen = set()
        for t in [tr.value] + [v for e in tr.events for v in (e.d.get('v'), e.d.get('ret')) if e.k in ('minsert', 'push', 'store', 'send')]:
            if not isinstance(t, Term):
                continue
            for x in c26.subterms(t):
                if x.op == 'agg' and x.a[0].endswith('ExclusiveFile') and x not in seen and isinstance(fi, int) and isinstance(ii, int):
                    seen.add(x)
                    p = opened.get(x.a[2][fi])
                    if p is None:
                        continue
                    d, n = last(p)
                    w = inner(P, x.a[2][ii])
                    c = canonical(flat(n))
                    if d is None or n is p:
                        n = mk('fname', p)
                    rest = flat(n)[1:] if c is not None else None
                    good = rightid(w, n, True) or c is not None and (w is c or w.op == 'parsed' and w.a[1] in WIDE and len(w.a) > 2 and w.a[2] is I(16) and flat(w.a[0]) == rest)
                    if good or opaque(w):
                        coll.ok('pair', show(w)[:100])
                    else:
                        coll.bad('pair', 'a values file opened at %s is kept as %s' % (show(p)[:120], show(w)[:80]), None, tr)
        for e in tr.events:
            if e.k == 'minsert' and 'ExclusiveFile>' in str(e.d.get('ty')) and isinstance(ii, int):
                v = tr.I.resolve(tr.st, e.v)
                w = inner(P, v.a[2][ii]) if v.op == 'agg' else mk('fld', mk('fld', v, ii), 0)
                k = inner(P, tr.I.resolve(tr.st, e.key))
                if k is w:
                    coll.ok('pair', 'key')
                else:
                    coll.bad('key', 'a values file is kept under the id %s, not its own' % show(k)[:80], e, tr)
        # writers find existing files
        if creates is not None:
            for t, has in tr.facts.items():
                if not (isinstance(t, Term) and t.op == 'has' and t.a[0].op == 'rd' and isinstance(t.a[1], int)) or has is not True or t.a[0].a[0] not in listed:
                    continue
                e = listed[t.a[0].a[0]]
                ent = mk('dirent', t.a[0].a[0], t.a[1], e.path)
                n = mk('entname', ent)
                if any(last(p)[1] is n for p in tried) or tr.facts.get(mk('isfile', mk('enttype', ent))) is False or symlink(tr, ent) or not meets(tr, n):
                    coll.ok('existing', name)
                    continue
                if any(f[1].d.get('op') in ('file_type', 'read_dir') for f in errlib.failures(tr)):
                    continue
                ty = sorted({x.a[1] for u in tr.facts if isinstance(u, Term) for x in c26.subterms(u) if x.op in ('parses', 'parsed') and strip(x.a[0])[0] is n})
                coll.bad('existing:%s' % (','.join(ty) or 'skipped'), 'a writer does not try a values file that is there already' + (' (the digits of its name are read as %s)' % ', '.join(ty) if ty else ''), creates, tr)
    return judge

# ---------------------------------------------------------------- rows

def column_judge(name, toward):
    def judge(tr, coll):
        if tr.outcome != 'ret':
            return
        narrow = None
        used = False
        ts = [tr.value] + [x for e in tr.events if e.k == 'call' for x in e.d.get('args', ())]
        for t in ts:
            for x in c26.subterms(t) if isinstance(t, Term) else ():
                if x.op == 'trunc' and x.a[1] in INTS and x.a[1] not in WIDE:
                    narrow = x.a[1]
                if x.op == 'arg' or x.op == 'O':
                    used = True
        for e in tr.events:
            if e.k == 'call':
                m = re.search(r'<(\w+) as', e.d['path']) or re.search(r'\bFrom<(\w+)>', e.d['path'])
                if m and m.group(1) in INTS and m.group(1) not in WIDE:
                    narrow = m.group(1)
        if narrow:
            coll.bad('column:%s' % name, '%s: an id goes through %s, which can not hold every id' % (name, narrow), None, tr)
        elif not used and txlib.succeeded(tr) is not False:
            coll.bad('column:%s' % name, '%s: the value of an id does not depend on the id' % name, None, tr)
        else:
            coll.ok('column', name)
    return judge

def jobs(ctx):
    P = ctx.prog()
    out = []
    for f in P.F:
        if 'blocks' not in f or not P.local(f) or '{closure' in f['path'] or check.is_generic(P, f) or not f.get('locals'):
            continue
        a = to_id(P, f)
        if a:
            out.append(Job(f['name'], f, judge=parse_judge(re.sub(r'<[^<>]*>', '', f['name']), a)))
        r = P.T[f['locals'][0]].get('n', '')
        if re.search(r'Vec<walk::Entry>', r) and f.get('pub'):
            out.append(Job(f['name'], f, judge=walk_judge(re.sub(r'.*::', '', f['name'].split('::<')[0])), cfg=dict(K=2)))
    for f in find(P, 'impl:ToSql:FileId:to_sql') + find(P, 'impl:FromSql:FileId:column_result'):
        out.append(Job(f['name'], f, judge=column_judge(f['name'].split('::')[-1], 'to_sql' in f['name'])))
    for j in txlib.every_op(P, None, cfg=dict(K=2, elem_total=1)):
        j.judge = op_judge(j.name)
        out.append(j)
    for s, x in check.spawned_closures(ctx) if False else []:
        pass
    return out

def finish(ctx, res):
    bad = {}
    for k in [k for k in res.bad if k.startswith('form?:')]:
        _, name, form, n = re.match(r'(form\?):(.*):(\w+):(\d+)$', k).groups()
        bad.setdefault((name, len(n)), {})[form] = res.bad.pop(k)
    for (name, n), v in bad.items():
        if len(v) == n:
            x = v.get('name') or next(iter(v.values()))
            x['key'] = 'parse:%s' % name
            res.bad[x['key']] = x
