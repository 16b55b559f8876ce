from vlib.rulelib import *
from vlib import txlib, fslib, sqlan
from rules import c03

ID = 'C26'
RULE = '''
On every path of opening a directory, up to the start of its reclaimer: the manifest is opened at manifest.db in that directory.
A step that discards anything (a reset or vacuum, a statement that writes, a removal or replacement of a file that could be the
manifest or a values file, an update of the manifest's version) only happens while the latest version read, read after the manifest
was locked for this process alone and before it was unlocked, is below the version this code writes.  A removed file is an entry of the
listing of that same directory whose name starts with values- and which is a plain file.  The version is written once, and
only after the reset, vacuum and end of the reset succeeded in that order, then the schema was created, and the listing was
exhausted with every entry that could be a values file removed.  A path that succeeds either wrote the version or read one not below it.
'''
FLOORS = {'guarded': 20, 'removed': 4, 'last': 4, 'opened': 4, 'current': 4}
ASSUME = ['vacuum while SQLITE_DBCONFIG_RESET_DATABASE is set empties the manifest and sets its user_version to 0 (SQLite)',
          'locking_mode=exclusive keeps other connections out from the next read on until it is set back (SQLite)']

def sval(t):
    return t.a[0].decode(errors='replace') if isinstance(t, Term) and t.op == 'str' else None

def versions(P, fn):
    """the constant this code writes as the manifest's version"""
    got = set()
    def judge(tr, coll):
        for e in tr.events:
            if e.k == 'pragma' and e.kind == 'update' and sval(e.name) == 'user_version':
                got.add(e.d['value'])
    return got, judge

def writes(e):
    """statements that could change the manifest"""
    if e.k != 'exec' or e.d.get('op') == 'prepare':
        return None
    s = sval(e.sql)
    if s is None:
        return '?'
    w = s.strip().lower()
    if w.strip('; \n\t') == 'vacuum':
        return 'vacuum'
    if e.op == 'batch' or not w.startswith(('select', 'pragma', 'explain')):
        return 'batch' if e.op == 'batch' else 'write'
    return None

def judge_for(V):
    def judge(tr, coll):
        fa = fslib.Facts(tr, fslib.nonneg)
        locked = False
        last = None                 # (column term, read while locked)
        steps = []
        lists = {}                  # listing id -> path listed
        ended, entries, removed = set(), {}, {}
        written = False
        opened = None
        def outdated():
            return last is not None and last[1] and locked and any(fa.entails(add(sub(v, last[0]), I(-1))) for v in V)
        def destructive(e, what):
            if written:
                coll.bad('open:after-version:' + what, 'opening %s after the version was recorded: an interruption here is not redone' % say(what), e, tr)
            elif outdated():
                coll.ok('guarded', what)
            elif last is None:
                coll.bad('open:unread:' + what, 'opening %s without having read the version of the manifest' % say(what), e, tr)
            elif not last[1] or not locked:
                coll.bad('open:unlocked:' + what, 'opening %s going by a version read while another process could still have upgraded the manifest' % say(what), e, tr)
            else:
                coll.bad('open:current:' + what, 'opening %s although the version of the manifest may be current or newer' % say(what), e, tr)
        for i, e in enumerate(tr.events):
            good = e.d.get('outcome') not in ('err',)
            if e.k == 'sqlopen':
                opened = e.path
                if manifest(e.path):
                    coll.ok('opened', show(e.path))
                else:
                    coll.bad('open:manifest', 'opening uses a manifest that is not manifest.db in the directory: %s' % show(e.path)[:120], e, tr)
            elif e.k == 'pragma':
                n, v = (sval(e.name) or '?').lower(), e.d.get('value')
                if n == 'locking_mode' and e.kind != 'query':
                    locked = good and (sval(v) or '').lower() == 'exclusive' or locked and not good
                elif n == 'user_version' and e.kind == 'query':
                    if good:
                        last = (version_of(tr, e.id), locked)
                elif n == 'user_version':
                    if e.kind == 'update' or v is not None:
                        destructive(e, 'version')
                        complete(tr, coll, e, steps, lists, ended, entries, removed, good)
                        written = written or good
                elif n in ('writable_schema', 'encoding', 'auto_vacuum', 'page_size'):
                    destructive(e, n)
            elif e.k == 'dbconfig':
                on = 'true' in repr(e.d.get('value')).lower() or e.d.get('value') is TRUE
                if 'RESET' in str(e.cfg):
                    if on:
                        destructive(e, 'reset')
                    if good:
                        steps.append('on' if on else 'off')
                else:
                    destructive(e, 'dbconfig')
            elif e.k == 'exec':
                w = writes(e)
                if w:
                    destructive(e, w)
                    if good:
                        steps.append('vacuum' if w == 'vacuum' else 'schema' if w == 'batch' and 'createtablekeys' in ''.join(sval(e.sql).lower().split()) else w)
            elif e.k == 'fs' and e.op == 'read_dir' and good:
                rid = listing_id(e.ret)
                lists[rid] = e.path
            elif e.k == 'iterend' and e.d.get('what') == 'rd':
                ended.add(e.id)
                entries[e.id] = e.d['k']
            d = fslib.discards(e) if e.k in ('fs', 'sys', 'open') else None
            if e.k == 'fs' and e.op == 'rename' and not fslib.not_values_path(e.path):
                d = ('path', e.path)
            if d is None:
                continue
            if d[0] == 'range':
                f = d[1]
                if made_here(tr, i, f):
                    continue
                destructive(e, 'range')
                coll.bad('open:range', 'opening discards bytes inside a file', e, tr)
                continue
            if fslib.not_values_path(d[1]) and not manifest_like(d[1]) or tempname(d[1]):
                continue
            destructive(e, 'remove')
            ent = entry_of(d[1])
            if ent is None or e.k != 'fs' or e.op != 'remove_file':
                coll.bad('open:foreign', 'opening discards %s, which is not an entry of the directory that is being reset' % show(d[1])[:120], e, tr)
                continue
            if good:
                removed.setdefault(ent, e)
            if lists.get(ent.a[0]) is None or not is_dir(lists[ent.a[0]]):
                coll.bad('open:elsewhere', 'opening removes a file of another directory than the one that was opened', e, tr)
            elif values_entry(tr, ent) is not True:
                coll.bad('open:other-file', 'opening removes an entry that is not shown to be a values file (a plain file whose name starts with values-)', e, tr)
            else:
                coll.ok('removed', show(d[1])[:100])
        if tr.outcome == 'ret' and rkind(tr)[0] == 'ok':
            if opened is None:
                coll.bad('open:none', 'opening succeeds without having opened the manifest', None, tr)
            if steps and not written:
                coll.bad('open:unrecorded', 'opening succeeds after a reset without recording the new version', None, tr)
            elif written:
                coll.ok('recorded', 'version written')
            elif last is None or not any(fa.entails(sub(last[0], v)) for v in V):
                coll.bad('open:outdated', 'opening succeeds with a manifest whose version may be older than this code writes', None, tr)
            else:
                coll.ok('current', show(last[0]))
    return judge

SAY = {'vacuum': 'vacuums the manifest', 'reset': 'resets the manifest', 'remove': 'removes files', 'version': "writes the manifest's version", 'batch': 'runs the schema',
       'write': 'changes the manifest', 'range': 'discards bytes', '?': 'runs an unknown statement'}

def say(w):
    return SAY.get(w, 'changes ' + w)

def version_of(tr, qid):
    for t in tr.facts:
        for x in subterms(t):
            if x.op == 'col' and x.a[0] == qid:
                return x
    return mk('col', qid, 0, 0, 'u32')

def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)

def is_dir(p):
    """the directory argument, or the Dir made of it"""
    return p.op == 'arg' or p.op == 'agg' and p.a[0].split('::')[-1] == 'Dir' and bool(p.a[2]) and is_dir(p.a[2][0]) or p.op == 'fld' and is_dir(p.a[0])

def manifest(p):
    return p.op == 'join' and is_dir(p.a[0]) and sval(p.a[1]) == 'manifest.db'

def manifest_like(p):
    return p.op == 'join' and fslib.prefix_of(p.a[1])[:8] == b'manifest'[:len(fslib.prefix_of(p.a[1])[:8])]

def tempname(p):
    return p.op in ('ntfpath', 'tdpath')

def listing_id(ret):
    for x in subterms(ret):
        if x.op == 'it' and x.a[0] == 'rd':
            return x.a[1]
    return None

def entry_of(p):
    """the directory entry a path was made from"""
    for x in subterms(p):
        if x.op == 'dirent':
            if p.op == 'join' and p.a[1].op == 'entname' and p.a[1].a[0] is x:
                return x
    return None

def values_entry(tr, ent):
    """whether the entry is a values file, going by what the path found out: True, False or None"""
    name = mk('entname', ent)
    starts = isfile = None
    for t, v in tr.facts.items():
        if t.op == 'pfx' and t.a[0] is name and t.a[1].op == 'str':
            s = t.a[1].a[0]
            if v and s.startswith(b'values-'):
                starts = True
            elif not v and b'values-'.startswith(s):
                starts = False
            elif v and not b'values-'.startswith(s):
                starts = False
        elif t.op == 'isfile' and any(x is ent for x in subterms(t)):
            isfile = bool(v)
        elif t.op == 'isdir' and v and any(x is ent for x in subterms(t)):
            isfile = False
    if starts is False or isfile is False:
        return False
    return True if starts and isfile else None

def made_here(tr, i, f):
    return any(e.k == 'open' and e.file is f and 'create_new' in e.flags for e in tr.events[:i])

def complete(tr, coll, e, steps, lists, ended, entries, removed, good):
    """everything an upgrade does has been done by the time the version is written"""
    want = ['on', 'vacuum', 'off', 'schema']
    it = iter(steps)
    if not all(any(s == w for s in it) for w in want):
        coll.bad('open:early', 'the version is recorded before the manifest was reset and its schema created (steps so far: %s)' % ', '.join(steps), e, tr)
        return
    if steps.count('vacuum') and 'schema' in steps[:len(steps) - 1 - steps[::-1].index('vacuum')]:
        coll.bad('open:schema-lost', 'the manifest is reset after its schema was created', e, tr)
        return
    whole = [r for r, p in lists.items() if is_dir(p) and r in ended]
    if not whole:
        coll.bad('open:unlisted', 'the version is recorded without the directory having been listed to its end: values files may stay', e, tr)
        return
    r = whole[-1]
    for k in range(entries[r]):
        ent = [x for t in tr.facts for x in subterms(t) if x.op == 'dirent' and x.a[0] == r and x.a[1] == k]
        ent = ent[0] if ent else None
        if ent is not None and ent in removed:
            continue
        if ent is None or values_entry(tr, ent) is not False:
            coll.bad('open:left', 'the version is recorded while an entry of the directory that may be a values file was not removed', e, tr)
            return
    coll.ok('last', 'version written after %s' % ', '.join(steps))

def jobs(ctx):
    P = ctx.prog()
    fn = need(P, 'Handle::new')
    small = dict(K=1, elem_total=0, err_cap=0)
    got, j = versions(P, fn)
    check_one(ctx, Job('open (version)', fn, judge=j, cfg=small, prune=c03.quiet_dir, args=A('dir')))
    if not got:
        raise Missing('the version a new manifest gets')
    V = sorted(got, key=repr)
    return [Job('open', fn, judge=judge_for(V), cfg=dict(K=2, elem_total=2), args=A('dir'), prune=c03.quiet_dir, maxfail=1),
            Job('open (3 entries)', fn, judge=judge_for(V), cfg=dict(K=3, elem_total=3, err_cap=0), args=A('dir'), prune=c03.quiet_dir)]

def check_one(ctx, job):
    from vlib.check import run_one
    run_one(ctx, job, Coll('pre'))
