import re
from vlib.rulelib import *
from vlib import txlib, errlib
from rules import c15

ID = 'C16'
RULE = '''
On every path of every exported C function: if one storage step fails (and the path does not show one of the handled cases of C15), the
function returns its documented failure (a PossumError other than NoError and NoSuchKey, a null pointer, SIZE_MAX, false), of the kind of
what failed (a manifest failure is not called an I/O error nor the other way round); it does not panic where it would not without the
failure.  NoSuchKey is only returned when nothing failed and a manifest query found no row.  Output parameters are written on every
successful path (unless null) and on no failing one.  A path on which nothing failed and whose change was committed does not report a failure,
and one on which the manifest has no row for the key it was given does not report success.  The conversions into PossumError give each error its own status: NoSuchKey,
SqliteError, IoError, AnyhowError, UnsupportedFilesystem.  A slice is made of a C buffer only when its size is not zero.
'''
FLOORS = {'reported': 100, 'outparam': 12, 'kept': 12, 'mapping': 4, 'buffer': 12, 'nosuchkey': 3, 'quiet': 8}
ASSUME = ['pointers passed by C are valid for what they are documented to be', 'anyhow errors keep no kind: any failure may be reported as AnyhowError']

OWN = ('Arc<std::sync::RwLock<handle::Handle', 'BatchWriter', 'ValueWriter', 'PossumReader', 'PossumValue', 'PossumLimits')

def outs(P, f):
    """output parameters: pointers to mut that are not the object worked on"""
    r = []
    for i, t in enumerate(f['locals'][1:f['argc'] + 1]):
        n = P.T[t].get('n', '')
        m = re.match(r'\*mut (.*)$', n)
        if m and (re.match(r'\*(mut|const) ', m.group(1)) or not any(m.group(1).replace('std::sync::', '').startswith(o.replace('std::sync::', '')) or m.group(1).split('::')[-1].startswith(o) for o in OWN)):
            r.append(i)
    return r

def status(tr, f):
    """True / False: what the function returned means success / failure; None: it cannot tell"""
    P = tr.I.P
    v = tr.value
    rt = P.T[f['locals'][0]].get('n', '')
    if rt.endswith('PossumError'):
        n = variant_name(P, v)
        return (n == 'NoError') if n else None, n
    if rt.startswith('*mut') or rt.startswith('*const'):
        return v.op not in ('null',) and v is not I(0), None
    if rt == 'bool':
        return (bool(v.a[0]) if v.op in ('bool', 'int') else tr.I.decide(tr.st, v)), None
    if rt == 'usize':
        return v is not I((1 << 64) - 1), None
    return None, None

def judge_for(name, f, cleanup):
    def judge(tr, coll):
        P = tr.I.P
        if tr.outcome == 'panic':
            errlib.Panics.note(tr, coll, name)
            return
        if tr.outcome != 'ret':
            return
        buffers(tr, coll, name)
        ok_, code = status(tr, f)
        fails = errlib.failures(tr)
        stores = [e for e in tr.events if e.k == 'store']
        os_ = outs(P, f)
        for n in os_:
            a = mk('arg', argname(f, n))
            mine = [e for e in stores if rooted(e.d['loc'], a)]
            if ok_ is False and mine:
                coll.bad('%s:out-on-failure:%d' % (name, n), '%s: writes an output parameter although it fails' % name, mine[0], tr)
            elif ok_ is False:
                coll.ok('kept', '%s: parameter %d untouched on failure' % (name, n))
            elif ok_ and not mine and tr.I.decide(tr.st, mk('isnull', a)) is not True:
                coll.bad('%s:out-missing:%d' % (name, n), '%s: succeeds without writing its output parameter' % name, None, tr)
            elif mine:
                coll.ok('outparam', '%s: parameter %d' % (name, n))
        if code == 'NoSuchKey':
            if fails:
                coll.bad('%s:nosuchkey' % name, '%s: says that there is no such key although a storage step failed (%s)' % (name, c15.what(fails[0][1])), fails[0][1], tr)
            elif not any(e.k == 'exec' and e.outcome == 'norows' for e in tr.events):
                coll.bad('%s:nosuchkey-unasked' % name, '%s: says that there is no such key without having looked' % name, None, tr)
            else:
                coll.ok('nosuchkey', name)
        keyed(tr, coll, name, ok_, code, fails)
        if len(fails) != 1:
            return
        i, e = fails[0]
        if ok_ is False:
            bad = {'SqliteError': not errlib.isql(e), 'IoError': errlib.isql(e)}.get(code)
            if bad and not errlib.excuse(tr, i, e, cleanup=cleanup):
                coll.bad('%s:kind:%s' % (name, c15.what(e)), '%s: reports %s although what failed is another kind of storage (%s)' % (name, code, c15.what(e)), e, tr)
            else:
                coll.ok('reported', '%s: %s as %s' % (name, c15.what(e), code))
            return
        why = errlib.excuse(tr, i, e, cleanup=cleanup)
        if why:
            coll.ok(why, '%s: %s' % (name, c15.what(e)))
        else:
            coll.bad('%s:%s' % (name, c15.what(e)), '%s: does not report that a storage step failed (%s)' % (name, c15.what(e)), e, tr)
    return judge

def keyed(tr, coll, name, ok_, code, fails):
    """what a path on which nothing failed reports"""
    if fails:
        return
    S_ = txlib.scan(tr)
    if ok_ is False and code != 'NoSuchKey':
        for t in S_.order:
            w = [x for x in t.ex if x.content() and x.outcome not in ('err', 'norows')]
            if t.commit is not None and w:
                coll.bad('%s:spurious' % name, '%s: reports failure although nothing failed and its change is in the manifest' % name, tr.events[t.commit], tr)
                return
    if code == 'NoError':
        for x in S_.exs.values():
            if x.outcome == 'norows' and x.k in ('delete', 'select', 'update'):
                p = x.where_param('key')
                if p is not None and mk('arg', 'key') in set(c15.subterms(p)) and not any(
                        y is not x and y.where_param('key') is p and y.outcome not in ('norows', 'err') for y in S_.exs.values()):
                    coll.bad('%s:absent' % name, '%s: reports success although the manifest has no such key' % name, x.e, tr)
                    return
        coll.ok('quiet', name)

def argname(f, n):
    for d in f['dbg']:
        if d[0] == n + 1:
            return d[1]
    return None

def rooted(loc, a):
    return isinstance(loc, Term) and loc.op == 'O' and loc.a[0] is a

def buffers(tr, coll, name):
    for e in tr.events:
        if e.k == 'rawslice' and e.p.op == 'fld' and e.d['n_'].op == 'fld' and e.p.a[0] is e.d['n_'].a[0]:
            if tr.I.decide(tr.st, eq0(e.d['n_'])) is False:
                coll.ok('buffer', '%s: %s' % (name, show(e.p.a[0])[:60]))
            else:
                coll.bad('%s:empty-buffer' % name, '%s: makes a slice of an empty C buffer, whose pointer may be null' % name, e, tr)

# ---------------------------------------------------------------- conversions

NAMES = {'NoSuchKey': 'NoSuchKey', 'Sqlite': 'SqliteError', 'Io': 'IoError', 'Anyhow': 'AnyhowError', 'UnsupportedFilesystem': 'UnsupportedFilesystem'}
TYPES = {'rusqlite::Error': 'SqliteError', 'std::io::Error': 'IoError', 'anyhow::Error': 'AnyhowError'}

def mapping_judge(f):
    def judge(tr, coll):
        P = tr.I.P
        src = P.T[f['locals'][1]]['n']
        if tr.outcome != 'ret':
            coll.bad('mapping:panic:' + src, 'turning an %s into a status panics' % src, None, tr)
            return
        got = variant_name(P, tr.value)
        if src in TYPES:
            want = TYPES[src]
        else:
            vs = [v['n'] for v in P.T[f['locals'][1]]['variants']]
            k = [v for t, v in tr.facts.items() if t.op == 'discr' and t.a[0].op == 'arg' and isinstance(v, int)]
            if not k:
                excl = [v for t, v in tr.facts.items() if t.op == 'discr' and t.a[0].op == 'arg']
                left = [i for i in range(len(vs)) if not any(i in x for x in excl if isinstance(x, frozenset))]
                if len(left) != 1:
                    coll.bad('mapping:shared:' + str(got), 'several kinds of error (%s) are given the same status %s' % (', '.join(vs[i] for i in left), got), None, tr)
                    return
                k = left
            want = NAMES.get(vs[k[0]])
            src += '::' + vs[k[0]]
        if got == want:
            coll.ok('mapping', '%s -> %s' % (src, got))
        else:
            coll.bad('mapping:' + src, '%s is given the status %s instead of %s' % (src, got, want), None, tr)
    return judge

# ---------------------------------------------------------------- jobs

CFG = dict(K=2, elem_total=1, max_traces=30000)

def jobs(ctx):
    P = ctx.prog()
    out = []
    pr = txlib.either(txlib.quiet_send, txlib.nolimit(P))
    n = 0
    for f in P.F:
        if not f.get('ext') or 'blocks' not in f or not P.local(f):
            continue
        n += 1
        nm = f['path'].split('::')[-1]
        p = pr
        if 'write_buf' in nm:
            p = txlib.either(pr, txlib.fresh_file)
        out.append(Job(nm, f, judge=judge_for(nm, f, 'cleanup' in nm), cfg=CFG, prune=None if nm == 'possum_new' else p))
    if n < 24:
        raise Missing('exported C functions (%d found)' % n)
    out.append(Job('C read', script=txlib.c_read_script(1), judge=judge_for('C read', need(P, 'ext:possum_reader_begin'), False), cfg=CFG, prune=pr))
    for f in P.F:
        if 'blocks' in f and P.local(f) and re.search(r'From<.*> for (\w+::)*PossumError>::from$', f['name']):
            out.append(Job('status of ' + P.T[f['locals'][1]]['n'], f, judge=mapping_judge(f)))
    return out

def finish(ctx, res):
    errlib.Panics.settle(res)
