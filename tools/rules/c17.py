import re
from vlib.rulelib import *
from vlib import txlib
from rules import c01, c16

ID = 'C17'
RULE = '''
Objects handed to C are boxes.  A pointer is handed out only by possum_new, possum_new_writer (returned), possum_start_new_value and
possum_reader_new (through their output parameter): on every successful path exactly one box is turned into a raw pointer, it is the one
handed out, and it is neither freed nor handed out twice; on a failing path no box is left behind as a raw pointer.  possum_drop (handle),
possum_writer_commit (writer), possum_writer_stage (value writer) and possum_reader_end (reader) turn that argument back into a box exactly
once on every path, successful or not, and do not leak it; no exported function turns any other argument back into a box, reads a handle,
writer, value writer or reader out of it, or drops it in place.  A handle's reference count is raised by one by the functions that create a
writer or a reader on it, lowered by one by possum_drop, and is otherwise unchanged.  A value handed out by possum_reader_add is a box of its
own, kept in the reader; no function working on a reader that is not its end removes, replaces or moves one, and the snapshot step changes
each value inside its box.  What is returned as the descriptor of a value writer is the one of its file, which stays open and owned by the value
writer.  Lists and keys given to C are allocated with malloc or calloc and not freed.
'''
FLOORS = {'created': 4, 'create-failed': 2, 'consumed': 4, 'kept-by-caller': 20, 'references': 6, 'value-pointer': 1, 'values-kept': 3, 'values-in-place': 1, 'fd': 1, 'malloc': 2}
ASSUME = ['a handle, writer, value writer or reader is not used by two C threads while it is consumed', 'panics abort at the C boundary']

CONSUME = {'possum_drop': 0, 'possum_writer_commit': 0, 'possum_writer_stage': 2, 'possum_reader_end': 0}
CREATE = {'possum_new': None, 'possum_new_writer': None, 'possum_start_new_value': 1, 'possum_reader_new': 1}

def c_objects(P):
    """the types of which C holds pointers"""
    r = []
    for f in P.F:
        if f.get('ext') and 'blocks' in f and P.local(f):
            nm = f['path'].split('::')[-1]
            if nm in CONSUME:
                t = P.T[f['locals'][CONSUME[nm] + 1]]['n']
                r.append(re.sub(r'^\*(mut|const) ', '', t))
    return set(r)

def root_arg(v):
    """the argument a pointer or a place stems from, when it is the argument's own target"""
    if v.op == 'arg':
        return v
    if v.op == 'ref' and v.a[0].op == 'O' and not v.a[1]:
        return root_arg(v.a[0].a[0])
    if v.op == 'deref':
        return root_arg(v.a[0])
    return None

def judge_for(name, f, objs, vf):
    P_args = [c16.argname(f, i) for i in range(f['argc'])]
    consumed = P_args[CONSUME[name]] if name in CONSUME else None
    def judge(tr, coll):
        P = tr.I.P
        if tr.outcome != 'ret':
            return
        ok_, code = c16.status(tr, f)
        evs_ = tr.events
        # ---- consumption
        fr = [e for e in evs_ if e.k == 'from_raw']
        mine = [e for e in fr if consumed and root_arg(e.v) is mk('arg', consumed)]
        created = [e for e in evs_ if e.k == 'into_raw']
        made = [e.v for e in created]
        for e in fr:
            if e in mine or any(e.v is x for x in made):
                continue
            coll.bad('%s:frees' % name, '%s: turns a pointer that the caller keeps back into a box (%s)' % (name, show(e.v)[:60]), e, tr)
            return
        for e in evs_:
            if e.k in ('rawread', 'dropinplace') and root_arg(e.p) is not None and (e.k == 'dropinplace' or e.d['ty'] in objs):
                coll.bad('%s:moves-out' % name, '%s: moves an object out of a pointer that the caller keeps' % name, e, tr)
                return
        if consumed:
            if len(mine) != 1:
                coll.bad('%s:consume' % name, '%s: %s' % (name, 'does not release the object it consumes' if not mine else 'releases the object it consumes twice'), mine[-1] if mine else None, tr)
                return
            for e in evs_:
                if e.k in ('forget', 'leak', 'into_raw') and root_arg(e.v) is mk('arg', consumed) and tr.events.index(e) > tr.events.index(mine[0]):
                    coll.bad('%s:leaks' % name, '%s: leaks the object it consumes' % name, e, tr)
                    return
            coll.ok('consumed', '%s: %s' % (name, consumed))
        coll.ok('kept-by-caller', name)
        # ---- creation
        back = [e.v for e in fr if any(e.v is x for x in made)]
        left = [e for e in created if not any(e.v is x for x in back) and root_arg(e.v) is None]
        for e in evs_:
            if e.k == 'leak':
                left.append(e)
        if name in CREATE:
            n = CREATE[name]
            if ok_ is False:
                if left:
                    coll.bad('%s:left-behind' % name, '%s: fails and leaves a box behind' % name, left[0], tr)
                    return
                coll.ok('create-failed', name)
            else:
                if n is None:
                    got = [tr.value]
                else:
                    a = mk('arg', P_args[n])
                    st_ = [e for e in evs_ if e.k == 'store' and c16.rooted(e.d['loc'], a)]
                    got = [st_[-1].v] if st_ else []
                if len(left) != 1 or not got or got[0] is not left[0].v:
                    coll.bad('%s:handed-out' % name, '%s: succeeds without handing out exactly one box of its own (%d made)' % (name, len(left)), left[0] if left else None, tr)
                    return
                if back:
                    coll.bad('%s:freed' % name, '%s: frees what it handed out' % name, fr[0], tr)
                    return
                coll.ok('created', name)
        elif left:
            coll.bad('%s:left-behind' % name, '%s: leaves a box behind' % name, left[0], tr)
            return
        # ---- reference counts of the handle
        for i, a in enumerate(P_args):
            t = P.T[f['locals'][i + 1]]['n']
            if 'Arc<' not in t:
                continue
            h = mk('deref', mk('arg', a))
            d = 0
            for e in evs_:
                if e.k == 'arcclone' and e.v is h:
                    d += 1
                elif e.k == 'arcdrop' and e.v is h:
                    d -= 1
            want = {'possum_drop': -1, 'possum_new_writer': 1}.get(name, 0)
            if name == 'possum_reader_new' and ok_ is not False:
                want = 1
            if d != want:
                coll.bad('%s:references' % name, "%s: changes the number of references to the handle by %d instead of %d" % (name, d, want), None, tr)
                return
            coll.ok('references', '%s: %+d' % (name, want))
        # ---- values of a reader
        for i, a in enumerate(P_args):
            t = P.T[f['locals'][i + 1]]['n']
            if not t.endswith('PossumReader') or t.count('*') != 1 or name == 'possum_reader_end':
                continue
            values_kept(tr, coll, name, a, vf)
        if name == 'possum_reader_add' and ok_ is not False:
            st_ = [e for e in evs_ if e.k == 'store' and c16.rooted(e.d['loc'], mk('arg', P_args[2]))]
            pu = [e for e in evs_ if e.k == 'push']
            v = st_[-1].v if st_ else None
            if v is None or v.op != 'ref' or v.a[0].op != 'H' or v.a[1] or not any(e.v is v for e in pu):
                coll.bad('%s:value-pointer' % name, '%s: the value handed out is not a box of its own kept in the reader' % name, st_[-1] if st_ else None, tr)
            else:
                coll.ok('value-pointer', name)
        # ---- descriptors
        if name == 'possum_value_writer_fd':
            want = mk('deref', mk('arg', P_args[0]))
            fd = tr.value
            inner = fd.a[0] if fd.op == 'fd' else None
            x = inner
            while x is not None and x.op == 'fld':
                x = x.a[0]
            if x is not want:
                coll.bad('%s:fd' % name, "%s: the descriptor given out is not the one of the value writer's file" % name, None, tr)
            else:
                bad = [e for e in evs_ if e.k == 'close' and e.file is inner or e.k == 'intofd']
                if bad:
                    coll.bad('%s:fd-closed' % name, '%s: closes or gives away the descriptor' % name, bad[0], tr)
                else:
                    coll.ok('fd', name)
        # ---- lists
        if name.endswith('list_items') and ok_:
            out = [e for e in evs_ if e.k == 'store' and any(c16.rooted(e.d['loc'], mk('arg', P_args[j])) for j in c16.outs(P, f))]
            ptrs = [(e, e.v) for e in out if P.T[f['locals'][1 + P_args.index(e.d['loc'].a[0].a[0])]]['n'].count('*') == 2]
            for e in evs_:
                if e.k == 'store' and e.v.op == 'agg' and e.v.a[0].endswith('PossumItem'):
                    ptrs += [(e, x.a[2][0]) for x in e.v.a[2] if x.op == 'agg' and x.a[0].endswith('PossumBuf')]
            freed = [e.p for e in evs_ if e.k == 'free']
            for e, p in ptrs:
                if p.op != 'cptr' or any(x is p for x in freed):
                    coll.bad('%s:malloc' % name, '%s: hands out memory that C cannot free, or that was freed' % name, e, tr)
                    return
            if ptrs:
                coll.ok('malloc', name)
    return judge

def values_kept(tr, coll, name, a, vf):
    """the boxes that were in the reader before are in it after, in the same order"""
    o = mk('O', mk('arg', a))
    before = fld(mk('deref', mk('arg', a)), vf)
    for e in tr.events:
        if e.k in ('drain', 'seqremove', 'truncate', 'clear', 'dropseq') and (e.d.get('v') is before or e.d.get('seq') is before):
            coll.bad('%s:values-removed' % name, '%s: removes values from the reader before its end' % name, e, tr)
            return
    now = final(tr, o, vf)
    if now is not before:
        x = now
        while x is not None and x.op in ('vapp', 'upd'):
            if x.op == 'upd':
                coll.bad('%s:values-replaced' % name, '%s: replaces a value of the reader, whose address was handed out' % name, None, tr)
                return
            x = x.a[0]
        if x is not before:
            coll.bad('%s:values-replaced' % name, '%s: replaces the values of the reader, whose addresses were handed out' % name, None, tr)
            return
    coll.ok('values-kept', name)

def final(tr, o, vf):
    T = [f for t in tr.I.P.T if t['k'] == 'adt' and t['n'].endswith('PossumReader') for f in [t['variants'][0]['f'][vf]]][0]
    return tr.I.load(tr.st, mk('ref', o, (('f', vf, T[1], None),)))

# ---------------------------------------------------------------- the snapshot step

def in_place(P, vf):
    """two values read by C"""
    pv = [t for t in P.T if t['k'] == 'adt' and t['n'].endswith('::PossumValue')][0]
    sv = [i for i, v in enumerate(pv['variants']) if v['n'] == 'SnapshotValue']
    if not sv:
        raise Missing('variants of PossumValue')
    def judge(tr, coll):
        if tr.outcome != 'ret' or 'vout1' not in tr.st.x or not txlib.c_ok(P, tr.value):
            return
        I_, st = tr.I, tr.st
        rd = I_.load(st, st.x['out'])
        outs = [I_.load(st, st.x['vout%d' % i]) for i in range(2)]
        outs = [o for o in outs if o.op != 'undef']
        base, el = models.seqparts(final(tr, rd.a[0], vf))
        if base is not None or len(el) != len(outs) or any(x is not y for x, y in zip(el, outs)):
            coll.bad('possum_reader_begin:moved', 'possum_reader_begin: a value is not in the box it was handed out in after the snapshot was taken', None, tr)
            return
        last = -1
        for o in outs:
            v = I_.load(st, o)
            if v.op != 'agg' or v.a[1] != sv[0]:
                coll.bad('possum_reader_begin:unchanged', 'possum_reader_begin: a value was not turned into a snapshot value', None, tr)
                return
            ids = [x.a[0] for x in subs(v) if x.op == 'col']
            if not ids or max(ids) <= last:
                coll.bad('possum_reader_begin:exchanged', 'possum_reader_begin: a value was turned into the snapshot of another one', None, tr)
                return
            last = max(ids)
        coll.ok('values-in-place', 'possum_reader_begin: %d values' % len(outs))
    return judge

def subs(v):
    from rules.c26 import subterms
    return subterms(v)

CFG = dict(K=2, elem_total=1, max_traces=30000)

def jobs(ctx):
    P = ctx.prog()
    out = []
    objs = c_objects(P)
    vf = None
    for t in P.T:
        if t['k'] == 'adt' and t['n'].endswith('::PossumReader'):
            for i, x in enumerate(t['variants'][0]['f']):
                if 'PossumValue' in P.T[x[1]].get('n', ''):
                    vf = i
    if vf is None:
        raise Missing('the values of PossumReader')
    pr = txlib.either(txlib.quiet_send, txlib.nolimit(P))
    seen = set()
    for f in P.F:
        if not f.get('ext') or 'blocks' not in f or not P.local(f):
            continue
        nm = f['path'].split('::')[-1]
        seen.add(nm)
        p = pr
        if 'write_buf' in nm:
            p = txlib.either(pr, txlib.fresh_file)
        out.append(Job(nm, f, judge=judge_for(nm, f, objs, vf), cfg=CFG, prune=None if nm == 'possum_new' else p))
    for nm in list(CONSUME) + list(CREATE):
        if nm not in seen:
            raise Missing('exported function ' + nm)
    out.append(Job('two values of a reader', script=txlib.c_read_script(2), judge=in_place(P, vf), cfg=dict(CFG, K=3, elem_total=2, same_file=True), prune=txlib.either(pr, c01.noerr()), maxfail=2))
    return out
