"""More library models: ways of writing the same thing (map entries, indexing, row cursors, default methods of io traits)."""
from .models import *
from .models import _split, BY, TR, TRPRE
from .interp import Call, Alts, Diverge
from .terms import *
from . import models as M
from . import sqlan

# ------------------------------------------------------------------ maps

@m('HashMap|Index::index', 'BTreeMap|Index::index')
def m_mapindex(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    ref = mk('ref', loc, pr + (('mval', key),))
    c.I.note(st, 'mget', loc=loc, pr=pr, key=key, map=mv)
    if k == 'yes':
        return ref
    if k == 'no':
        return panic(c, st)
    h = mk('mhas', v, key)
    if key.op == 'mkey' and key.a[0] is v:
        return ref
    return Alts([([(h, True)], lambda s: ref), ([(h, False)], lambda s: panic(c, s))])

BY['BTreeMap::get_mut'] = m_mapget(True)
BY['BTreeMap::iter_mut'] = it_map('mref', 'sorted')
BY['BTreeMap::values_mut'] = it_map('mvals', 'sorted')
BY['BTreeMap::into_keys'] = lambda c, st: mk('it', 'mvkeys', c.args[0], 0, 'sorted')
BY['BTreeMap::into_values'] = lambda c, st: mk('it', 'mvvals', c.args[0], 0, 'sorted')
BY['BTreeMap::retain'] = BY['BTreeSet::retain'] = BY['HashMap::retain']

def pair_of(key, val):
    return mk('agg', 'tup', 0, (key, val))

@m('HashMap::remove_entry', 'BTreeMap::remove_entry')
def m_removeentry(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    c.I.note(st, 'mremove', loc=loc, pr=pr, key=key, map=mv, ty=tn(c.I, c.argtys[0]))
    if k == 'no':
        return none(c)
    c.I.write(st, loc, pr, mk('mrem', mv, key))
    if k == 'yes':
        return some(c, pair_of(key, v))
    return Alts([([(mk('mhas', v, key), False)], lambda s: none(c)), ([(mk('mhas', v, key), True)], lambda s: some(c, pair_of(key, mk('mval', v, key))))])

@m('HashMap::get_key_value', 'BTreeMap::get_key_value')
def m_getkv(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    c.I.note(st, 'mget', loc=loc, pr=pr, key=key, map=mv)
    def yes(s):
        return some(c, pair_of(mk('ref', mk('C', key), ()), mk('ref', loc, pr + (('mval', key),))))
    if k == 'yes':
        return yes(st)
    if k == 'no':
        return none(c)
    return Alts([([(mk('mhas', v, key), False)], lambda s: none(c)), ([(mk('mhas', v, key), True)], yes)])

@m('HashSet::get')
def m_setget(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    if k in ('yes', 'no'):
        return some(c, c.args[1]) if k == 'yes' else none(c)
    return Alts([([(mk('mhas', v, key), False)], lambda s: none(c)), ([(mk('mhas', v, key), True)], lambda s: some(c, c.args[1]))])

# entries

def entry_term(c, st):
    """entry(r, key) of self: an Entry, an OccupiedEntry or a VacantEntry, by value or by reference"""
    e = c.args[0]
    n = 4
    while n:
        if e.op == 'ref':
            e = c.I.load(st, e)
        elif e.op == 'agg' and e.a[2]:
            e = e.a[2][0]
        else:
            break
        n -= 1
    return e if e.op == 'entry' else None

@m('HashMap::entry', 'BTreeMap::entry')
def m_entry(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.args[1]
    k, v = mlookup(mv, key)
    e = mk('entry', mk('ref', loc, pr), key)
    tag = tn(c.I, c.destty) or 'std::collections::hash_map::Entry'
    occ = 1 if 'btree' in tag else 0
    def mkv(has):
        return mk('agg', tag, occ if has else 1 - occ, (e,))
    if k in ('yes', 'no'):
        return mkv(k == 'yes')
    h = mk('mhas', v, key)
    d = c.I.decide(st, h)
    if d is not None:
        return mkv(d)
    return Alts([([(h, False)], lambda s: mkv(False)), ([(h, True)], lambda s: mkv(True))])

def entref(e):
    r, key = e.a
    return mk('ref', r.a[0], r.a[1] + (('mval', key),))

def entval(c, st, e):
    r, key = e.a
    mv = c.I.load(st, r)
    k, v = mlookup(mv, key)
    return v if k == 'yes' else mk('mval', v if v is not None else mv, key)

def entinsert(c, st, e, v):
    r, key = e.a
    c.I.store(st, r, mk('mins', c.I.load(st, r), key, v))
    c.I.note(st, 'minsert', loc=r.a[0], pr=r.a[1], key=key, v=v, ty='entry')

@m('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_occget(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    r, key = e.a
    c.I.note(st, 'mget', loc=r.a[0], pr=r.a[1], key=key, map=c.I.load(st, r))
    return entref(e)

@m('OccupiedEntry::insert')
def m_occinsert(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    old = entval(c, st, e)
    entinsert(c, st, e, c.args[1])
    return old

@m('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def m_occremove(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    r, key = e.a
    old = entval(c, st, e)
    mv = c.I.load(st, r)
    c.I.note(st, 'mremove', loc=r.a[0], pr=r.a[1], key=key, map=mv, ty='entry')
    c.I.store(st, r, mk('mrem', mv, key))
    return pair_of(key, old) if c.f['path'].endswith('entry') else old

@m('VacantEntry::insert', 'VacantEntry::insert_entry')
def m_vacinsert(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    entinsert(c, st, e, c.args[1])
    return e if c.f['path'].endswith('entry') else entref(e)

@m('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def m_entkey(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    return mk('ref', mk('C', e.a[1]), ())

@m('VacantEntry::into_key')
def m_entintokey(c, st):
    e = entry_term(c, st)
    return e.a[1] if e is not None else mk('opq', 'entry', st.fresh())

@m('Entry::and_modify')
def m_andmodify(c, st):
    a = c.args[0]
    e = entry_term(c, st)
    if e is None or a.op != 'agg':
        return a
    occ = 1 if 'btree' in a.a[0] else 0
    if a.a[1] != occ:
        return a
    return Call(c.args[1], [entref(e)], 'andmodify', a)

@cont('andmodify')
def c_andmodify(I_, st, a, v):
    return a

_eo = M.entry_or
def entry_or2(c, st, mkdefault):
    e = entry_term(c, st)
    if e is not None:
        c.args = [e] + list(c.args[1:])
    return _eo(c, st, mkdefault)
M.entry_or = entry_or2

@m('Entry::or_insert_with_key')
def m_orinsertwithkey(c, st):
    e = entry_term(c, st)
    def d(s):
        return Call(c.args[1], [mk('ref', mk('C', e.a[1]), ())], 'entryins', e)
    return entry_or2(c, st, d)

@m('Entry::or_insert_with')
def m_orinsertwith(c, st):
    e = entry_term(c, st)
    if e is None:
        return mk('opq', 'entry', st.fresh())
    return entry_or2(c, st, lambda s: Call(c.args[1], [], 'entryins', e))

# ------------------------------------------------------------------ row cursors

def stmt_of(c, st):
    s_ = arg(c, st, 0)
    return s_ if s_.op == 'stmt' else mk('stmt', mk('sqltext', s_), s_, 0)

@m('Statement::query')
def m_squery(c, st):
    s_ = stmt_of(c, st)
    return M.do_exec(c, st, 'query_map', s_.a[0], s_.a[1], M.params_of(c, st, 1), None)

@m('Rows::mapped', 'Rows::map', 'Rows::and_then')
def m_rowsmapped(c, st):
    v = c.args[0]
    if v.op != 'it':
        return mk('opq', 'rows', st.fresh())
    return mk('it', 'rows', v.a[1], v.a[2], c.args[1])

@m('Rows::next', 'Rows|FallibleStreamingIterator::next')
def m_rowscursor(c, st):
    I_ = c.I
    r = c.args[0]
    v = I_.load(st, r)
    if v.op == 'ref':
        r = v
        v = I_.load(st, r)
    if v.op != 'it' or v.a[0] != 'rows':
        return mk('opq', 'rowsnext', st.fresh())
    n, k = v.a[1], v.a[2]
    h = mk('has', mk('rows', n), k)
    T = I_.P.T[c.destty]
    otag = I_.P.T[T['targs'][0]]['n']
    def stop(s):
        I_.note(s, 'iterend', what='rows', id=n, k=k)
        return ok(c, mk('agg', otag, 0, ()))
    if k >= I_.elem_cap or st.elems >= I_.elem_total:
        return Alts([([(h, False)], stop)])
    def yes(s):
        s.elems += 1
        I_.store(s, r, mk('it', 'rows', n, k + 1, None))
        I_.note(s, 'rownext', id=n, k=k)
        return ok(c, mk('agg', otag, 1, (mk('rowref', n, k),)))
    def e(s):
        I_.note(s, 'rowerr', id=n, k=k)
        I_.store(s, r, mk('it', 'rows', n, k + 1, None))
        return err(c, M.sqlerr(c, s, 'step'))
    return Alts([([(h, False)], stop), ([(h, True)], e), ([(h, True)], yes)])

# ------------------------------------------------------------------ default methods of io traits

def isfile(c):
    T = c.I.P.T[c.argtys[0]] if c.argtys and c.argtys[0] is not None and c.argtys[0] >= 0 else None
    while T and T['k'] in ('ref', 'ptr'):
        T = c.I.P.T[T['t']]
    return bool(T) and T['n'] in ('std::fs::File', 'fs::File')

def forfile(name):
    def f(c, st):
        if isfile(c):
            return BY[name](c, st)
        if 'blocks' in c.f:
            return NotImplemented
        c.I.note(st, 'call', path=c.f['path'], args=tuple(c.args))
        return mk('opq', c.f['path'], st.fresh(), tuple(c.args))
    return f

for t_, n_ in (('Write', 'write_all'), ('Seek', 'rewind'), ('Seek', 'stream_len'), ('Seek', 'stream_position'), ('Read', 'read_exact'), ('Read', 'read_to_end'),
               ('Write', 'flush'), ('FileExt', 'read_exact_at'), ('FileExt', 'write_all_at'), ('ReadAt', 'read_exact_at')):
    if 'File|%s::%s' % (t_, n_) in BY:
        BY['%s::%s' % (t_, n_)] = forfile('File|%s::%s' % (t_, n_))

@m('Seek::seek_relative', 'File|Seek::seek_relative')
def m_seekrel(c, st):
    if not isfile(c):
        return mk('opq', 'seek_relative', st.fresh())
    f = M.fileval(c, st)
    def o(s):
        s.x[('pos', f)] = add(s.x.get(('pos', f)) or mk('pos', f, 0), c.args[1])
        return UNIT
    return M.fs_alt(c, st, 'seek', o, {'file': f, 'to': mk('agg', 'std::io::SeekFrom', 2, (c.args[1],))})

# ------------------------------------------------------------------ sequences

def sortlike(c, st):
    """the order of two or more known elements may change"""
    loc, pr = c.I.deref(c.args[0])
    v = c.I.read(st, loc, pr)
    n = 6
    while v.op in ('ref', 'dyn') and n:
        loc, pr = c.I.deref(v)
        v = c.I.read(st, loc, pr)
        n -= 1
    b, el = seqparts(v)
    if len(el) < 2 or all(x is el[0] for x in el):
        return UNIT
    def rev(s):
        c.I.write(s, loc, pr, mkseq(b, el[::-1]))
        return UNIT
    if c.f['path'].endswith('reverse'):
        return rev(st) if b is None else UNIT
    h = mk('inorder', v, st.fresh())
    return Alts([([(h, True)], lambda s: UNIT), ([(h, False)], rev)])

for n_ in ('reverse', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
    BY['[T]::' + n_] = sortlike

BY['VecDeque::push_back'] = BY['Vec::push']
BY['VecDeque::len'] = BY['Vec::len']
BY['VecDeque::is_empty'] = BY['Vec::is_empty']
BY['VecDeque::iter'] = BY['[T]::iter']
BY['VecDeque::clear'] = BY['Vec::clear']
BY['VecDeque::drain'] = BY['Vec::drain']

@m('Vec|Extend::extend_one')
def m_extendone(c, st):
    return BY['Vec::push'](c, st)

@m('VecDeque::pop_front')
def m_popfront(c, st):
    v = c.I.load(st, c.args[0])
    b, el = seqparts(v)
    if b is None:
        if not el:
            return none(c)
        c.I.store(st, c.args[0], mkseq(None, el[1:]))
        return some(c, el[0])
    return NotImplemented

# ------------------------------------------------------------------ cells

@m('Cell::get', 'Cell::take', 'Cell::replace', 'Cell::set')
def m_cell(c, st):
    loc, pr = c.I.deref(c.args[0])
    p = pr + (('inner',),)
    op = c.f['path'].rsplit('::', 1)[-1]
    v = c.I.read(st, loc, p)
    if op == 'get':
        return v
    if op == 'take':
        d = default_value(c.I, st, c.destty)
        if not isinstance(d, Term):
            return mk('opq', 'cell', st.fresh())
        c.I.write(st, loc, p, d)
        return v
    c.I.write(st, loc, p, c.args[1])
    return v if op == 'replace' else UNIT

@m('RefCell::borrow', 'RefCell::borrow_mut')
def m_refcell(c, st):
    loc, pr = c.I.deref(c.args[0])
    return mk('ref', loc, pr + (('inner',),))

@m('Ref|Deref::deref', 'RefMut|Deref::deref', 'RefMut|DerefMut::deref_mut')
def m_refderef(c, st):
    return c.I.load(st, c.args[0])

# ------------------------------------------------------------------ strings

@m('String|AddAssign::add_assign')
def m_addassign(c, st):
    return BY['String::push_str'](c, st)

@m('Cow::into_owned')
def m_cowowned(c, st):
    return mk('opq', 'owned', st.fresh(), c.args[0])

# ------------------------------------------------------------------ errors

@m("Error + 'static)::is", 'Error::is')
def m_erris(c, st):
    tgt = c.f['targs'][-1] if c.f.get('targs') else None
    name = None
    if isinstance(tgt, int):
        name = tn(c.I, tgt)
    elif isinstance(tgt, (list, tuple)) and tgt and isinstance(tgt[-1], int):
        name = tn(c.I, tgt[-1])
    if name is None:
        return mk('isa', c.I.resolve(st, c.args[0]), '?')
    v = c.I.resolve(st, c.args[0])
    inner = v.a[0] if v.op == 'rootcause' else v
    if inner.op == 'agg' and isinstance(inner.a[0], str):
        return B(inner.a[0] == name)
    if inner.op in ('ioerr', 'iofromerrno', 'sqlerr', 'errno') or inner.op == 'wrap' and inner.a[0] == 'std::io::Error':
        return B({'sqlerr': 'rusqlite::Error', 'errno': 'nix::errno::Errno'}.get(inner.op, 'std::io::Error') == name)
    return mk('isa', inner, 'std::option::Option<&%s>' % name)

@m('Error::context')
def m_errcontext(c, st):
    return mk('wrap', 'ctx', c.args[0])

# ------------------------------------------------------------------ iterators

def nth_step(I_, st, data):
    ref, ity, n = data
    return call_next(I_, st, ref, ity, 'nth', data)

@cont('nth')
def c_nth(I_, st, data, v):
    ref, ity, n = data
    if n <= 0:
        return v
    if v.op == 'agg' and v.a[1] == 0:
        return v
    return nth_step(I_, st, (ref, ity, n - 1))

@t('Iterator', 'nth')
def t_nth(c, st):
    n = c.args[1]
    T = c.I.P.T[c.argtys[0]]
    if n.op != 'int' or n.a[0] > 8 or T['k'] != 'ref':
        return mk('opq', 'nth', st.fresh())
    return nth_step(c.I, st, (c.args[0], T['t'], n.a[0]))

# ------------------------------------------------------------------ vec![..]: a boxed array, filled in place

@m('Box::new_uninit')
def m_newuninit(c, st):
    r = c.I.alloc(st, mk('agg', 'std::mem::MaybeUninit', 1, (UNIT, mk('agg', 'std::mem::ManuallyDrop', 0, (mk('opq', 'uninit', st.fresh()),)))))
    return mk('agg', 'std::boxed::Box', 0, (r,))

@m('boxed::box_assume_init_into_vec_unsafe', 'box_assume_init_into_vec_unsafe', 'Box::assume_init')
def m_assumeinitvec(c, st):
    b = c.args[0]
    if b.op != 'agg' or not b.a[2] or b.a[2][0].op != 'ref':
        return mk('opq', 'boxinit', st.fresh(), b)
    v = c.I.load(st, b.a[2][0])
    while v.op == 'agg' and v.a[0] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop') and v.a[2]:
        v = v.a[2][-1]
    return v

# ------------------------------------------------------------------ receivers as iterators

def recv_step(I_, st, ref, wrap):
    v = I_.load(st, ref)
    ch, kind = v.a[1], v.a[2]
    def get(s):
        x = mk('recvd', ch, s.fresh())
        I_.note(s, 'recv', ch=ch, kind=kind, outcome='ok', v=x, timeout=None)
        return wrap(x)
    def end(o):
        def f(s):
            I_.note(s, 'recv', ch=ch, kind=kind, outcome=o, timeout=None)
            return wrap(None)
        return f
    alts = [((), get), ((), end('disconnected'))] + ([((), end('empty'))] if kind == 'try_recv' else [])
    return Alts(M.recv_limit(I_, st, ch, alts))

_iter_next = M.iter_next
def iter_next2(I_, st, ref, wrap):
    if I_.load(st, ref).a[0] == 'chan':
        return recv_step(I_, st, ref, wrap)
    return _iter_next(I_, st, ref, wrap)
M.iter_next = iter_next2

@m('Receiver::iter', 'Receiver::try_iter')
def m_rxiter(c, st):
    return mk('it', 'chan', arg(c, st, 0), 'try_recv' if c.f['path'].endswith('try_iter') else 'recv', None)

@m('Receiver|IntoIterator::into_iter')
def m_rxinto(c, st):
    return mk('it', 'chan', arg(c, st, 0), 'recv', None)

# ------------------------------------------------------------------ sqlite errors

def sqlite_failure(c, st):
    """(the error, its code) of a rusqlite::Error"""
    P = c.I.P
    v = c.I.resolve(st, c.args[0])
    T = next((t_ for t_ in P.T if t_['k'] == 'adt' and t_['n'] == 'rusqlite::Error'), None)
    if T is None:
        return None
    i = next(i for i, x in enumerate(T['variants']) if x['n'] == 'SqliteFailure')
    return v, i, T

@m('Error::sqlite_error_code', 'Error::sqlite_error')
def m_sqlcode(c, st):
    r = sqlite_failure(c, st)
    if r is None:
        return mk('opq', 'sqlcode', st.fresh())
    v, i, T = r
    whole = c.f['path'].endswith('sqlite_error')
    def yes(s, f):
        if whole:
            return some(c, mk('ref', mk('O', f), ()))
        return some(c, mk('fld', f, 0))
    if v.op == 'agg':
        return yes(st, v.a[2][0]) if v.a[1] == i else none(c)
    d = mk('discr', v)
    known = st.facts.get(d)
    if isinstance(known, int):
        return yes(st, mk('fld', mk('as', v, i), 0)) if known == i else none(c)
    c.I.discr_dom.setdefault(d, tuple(int(x['d']) for x in T['variants']))
    return Alts([([(mk('isd', v, i), False)], lambda s: none(c)), ([(mk('isd', v, i), True)], lambda s: yes(s, mk('fld', mk('as', v, i), 0)))])
