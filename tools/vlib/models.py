"""Models of library calls for the abstract interpreter (std, rusqlite, nix/libc, tempfile, tracing...).

A model maps a call to a term, a fork over outcomes (Alts), or a nested call (Call).  Library calls with
an effect on storage or on locks append an event to the trace.
"""
import re
from .terms import *
from .interp import Call, Alts, Diverge, cont, Ctx
from . import sqlan

BY = {}          # canonical name -> model
TR = {}          # (trait, method) -> model for calls through a trait
LOGS = True

def m(*names):
    def d(f):
        for n in names:
            BY[n] = f
        return f
    return d

def t(trait, *names):
    def d(f):
        for n in names:
            TR[(trait, n)] = f
        return f
    return d

def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    return r.replace('::::', '::').rstrip(':')

def head(x):
    x = x.strip()
    while x.startswith('&'):
        x = x[1:].lstrip()
        x = re.sub(r"^'[a-z_]+ ", '', x)
        if x.startswith('mut '):
            x = x[4:]
    x = strip_generics(x) if not x.startswith('[') else x
    return x.split('::')[-1]

_canon = {}

def split_as(inner):
    d = 0
    i = 0
    while i < len(inner):
        c = inner[i]
        if c in '<([':
            d += 1
        elif c in ')]' or c == '>' and inner[i - 1] != '-':
            d -= 1
        elif d == 0 and inner.startswith(' as ', i):
            return inner[:i], inner[i + 4:]
        i += 1
    return inner, None

def canon(path):
    r = _canon.get(path)
    if r is not None:
        return r
    p = path
    if p.startswith('<'):
        d = 0
        for i, c in enumerate(p):
            if c == '<':
                d += 1
            elif c == '>' and p[i - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        x, tr = split_as(inner)
        name = strip_generics(rest).split('::')[-1]
        if tr is not None:
            r = '%s|%s::%s' % (head(x), strip_generics(tr).split('::')[-1], name)
        else:
            r = '%s::%s' % (head(x), name)
    elif '::<impl ' in p:
        i = p.index('::<impl ')
        d = 0
        for j in range(i + 2, len(p)):
            if p[j] == '<':
                d += 1
            elif p[j] == '>' and p[j - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner = p[i + 8:j]
        name = strip_generics(p[j + 1:]).split('::')[-1]
        if inner.startswith('<'):
            dd = 0
            for q, ch in enumerate(inner):
                if ch == '<':
                    dd += 1
                elif ch == '>' and inner[q - 1] != '-':
                    dd -= 1
                    if dd == 0:
                        break
            inner = inner[q + 1:].strip()
        if ' for ' in inner:
            tr, x = inner.split(' for ', 1)
            r = '%s|%s::%s' % (head(x), strip_generics(tr).split('::')[-1], name)
        else:
            r = '%s::%s' % (head(inner), name)
    else:
        segs = strip_generics(p).split('::')
        segs = [s for s in segs if s]
        if segs[0] == 'libc':
            r = 'libc::' + segs[-1]
        else:
            r = '::'.join(segs[-2:])
    _canon[path] = r
    return r

class Models:
    # columns related by the table's check constraint (cleared when the schema lacks it)
    checked_cols = ('file_id', 'file_offset', 'value_length')

    def lookup(self, f, callee):
        if f['path'].startswith('possum::'):
            return None
        c = canon(f['path'])
        r = BY.get(c)
        if r is None and '|' in c:
            r = TR.get(tuple(c.split('|')[1].split('::'))) if 'blocks' not in f else None
        return r

    def lookup_trait(self, callee):
        tr = callee.get('trait')
        if not tr:
            return None
        return TRPRE.get((tr.split('::')[-1], callee['name']))

    def drop_value(self, I, st, ref, ty):
        return drop_seq(I, st, [('d', ref, ty)])

    def row_axiom(self, I, st, col, zero):
        """table check constraint of the manifest: value_length = 0 <=> file_id, file_offset are null"""
        rel = st.x.get(('cols', col.a[0]))
        if rel is None or rel.get(col.a[2]) is None:
            return True
        key = ('rowax', col.a[0], col.a[1])
        done = st.x.get(key)
        if done is not None:
            return done == zero
        st.x[key] = zero
        for i, name in rel.items():
            if i == col.a[2]:
                continue
            cands = []
            if name == 'value_length':
                cands = [eq0(mk('col', col.a[0], col.a[1], i, 'u64'))]
                ok_ = I.assume(st, cands[0], zero)
            else:
                ty = 'std::option::Option<file_id::FileId>' if name == 'file_id' else 'std::option::Option<u64>'
                ok_ = I.assume_discr(st, mk('discr', mk('col', col.a[0], col.a[1], i, ty)), 0 if zero else 1)
            if not ok_:
                return False
        return True

TRPRE = {}

def tp(trait, *names):
    def d(f):
        for n in names:
            TRPRE[(trait, n)] = f
        return f
    return d

# ------------------------------------------------------------------ helpers

def tn(I, ty):
    return I.P.T[ty]['n'] if ty is not None and ty >= 0 else None

def tagof(c, default):
    n = tn(c.I, c.destty)
    return n or default

def ok(c, v, tag=None):
    return mk('agg', tag or tagof(c, 'Result'), 0, (v,))

def err(c, v, tag=None):
    return mk('agg', tag or tagof(c, 'Result'), 1, (v,))

def some(c, v, tag=None):
    return mk('agg', tag or tagof(c, 'Option'), 1, (v,))

def none(c, tag=None):
    return mk('agg', tag or tagof(c, 'Option'), 0, ())

def res(c, okv, errv, note=None, oknote=None):
    """fork Ok / Err; okv and errv are functions of the state"""
    def o(s):
        v = okv(s)
        return v if not isinstance(v, Term) else ok(c, v)
    def e(s):
        return err(c, errv(s))
    return Alts([((), e), ((), o)])

def simple_res(kind, okf=None, errname='ioerr', **extra):
    pass

def ioerr(s, what):
    return mk('ioerr', s.fresh(), what)

def arg(c, st, i):
    return c.I.resolve(st, c.args[i])

def path_of(c, st, i):
    return c.I.resolve(st, c.args[i])

def seqparts(v):
    """(symbolic base or None, appended elements)"""
    app = []
    while v.op == 'vapp':
        app = list(v.a[1]) + app
        v = v.a[0]
    if v.op in ('vec', 'arr'):
        return None, list(v.a[0]) + app
    if v.op == 'agg' and v.a[0] == 'arr':
        return None, list(v.a[2]) + app
    if v.op == 'str':
        return None, [mk('int', b) for b in v.a[0]] + app
    return v, app

def mkseq(base, elems):
    if base is None:
        return mk('vec', tuple(elems))
    if not elems:
        return base
    return mk('vapp', base, tuple(elems))

EMPTYVEC = mk('vec', ())
MEMPTY = mk('mempty')

def strterm(v):
    if v.op in ('vec', 'arr') and all(isinstance(x, Term) and x.op == 'int' for x in v.a[0]) and v.a[0]:
        return mk('str', bytes(x.a[0] & 255 for x in v.a[0]))
    return v

def bare(b):
    """a symbolic sequence without the stores into its elements"""
    while b is not None and b.op == 'upd':
        b = b.a[0]
    return b

# ------------------------------------------------------------------ transparent references

def ident(c, st):
    return c.args[0]

for n in ('Vec|Deref::deref', 'Vec|DerefMut::deref_mut', 'String|Deref::deref', 'PathBuf|Deref::deref', 'OsString|Deref::deref',
          'CString|Deref::deref', 'Mmap|Deref::deref',
          'CachedStatement|Deref::deref', 'CachedStatement|DerefMut::deref_mut', 'Transaction|Deref::deref', 'Savepoint|Deref::deref',
          'str::as_bytes', 'String::as_bytes', 'String::as_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'OsStr::as_encoded_bytes', 'Path::as_os_str',
          'OsStr|OsStrExt::from_bytes', 'OsStr|OsStrExt::as_bytes', 'Path::new', 'PathBuf::as_path', 'CStr::as_ptr', 'PathBuf::as_os_str', 'OsString::as_os_str', 'PathBuf::into_os_string',
          'OsString::into_encoded_bytes', 'OsString::from_encoded_bytes_unchecked', 'String::into_bytes', 'str::from_utf8_unchecked', 'String::from_utf8_unchecked', 'OsStr::from_encoded_bytes_unchecked', 'Vec::into_boxed_slice', '[T]::into_vec',
          'CStr::to_bytes', 'Pin::get_mut', 'Pin::get_ref', 'Pin::into_inner', 'Pin::new', 'Pin::new_unchecked', 'Pin::into_inner_unchecked', 'Pin::get_unchecked_mut',
          'Path|AsRef::as_ref', 'PathBuf|AsRef::as_ref', 'String|AsRef::as_ref', 'str|AsRef::as_ref', 'Vec|AsRef::as_ref', 'OsStr|AsRef::as_ref', 'OsString|AsRef::as_ref', '[T]|AsRef::as_ref',
          'PathBuf|Borrow::borrow', 'Vec|Borrow::borrow', 'String|Borrow::borrow', '[T]::as_ptr', '[T]::as_mut_ptr', 'Vec::as_ptr', 'Vec::as_mut_ptr', 'str::as_ptr',
          'const_ptr::cast', 'ptr::cast', 'hint::black_box', 'hint::must_use', '__private::must_use', 'Vec|From::from', '*const T::cast', '*mut T::cast', '*mut T::cast_const', '*const T::cast_mut',
          'ManuallyDrop|Deref::deref', 'ManuallyDrop|DerefMut::deref_mut', 'identity', 'convert::identity', 'NamedTempFile::as_file', 'NamedTempFile::as_file_mut',
          'TempDir|AsRef::as_ref', 'LazyLock|Deref::deref', 'Duration|From::from', 'once_cell::get_unchecked', 'AssertUnwindSafe|Deref::deref', 'Cow|Deref::deref', 'str::as_str', 'ops::deref', 'Thread|Deref::deref', 'T|AsDynError::as_dyn_error',
          'str::trim_ascii', 'Vec::leak'):
    BY[n] = ident

@m('Arc|Deref::deref', 'Rc|Deref::deref', 'Pin|Deref::deref', 'Pin|DerefMut::deref_mut', 'Box|Deref::deref', 'Box|DerefMut::deref_mut', 'Box|AsRef::as_ref', 'Box|AsMut::as_mut',
   'Pin::as_mut', 'Pin::as_ref', 'Arc|AsRef::as_ref', 'Rc|AsRef::as_ref', 'Arc|Borrow::borrow', 'Rc|Borrow::borrow', 'Box|Borrow::borrow', 'Box|BorrowMut::borrow_mut')
def m_arcderef(c, st):
    v = c.I.load(st, c.args[0])
    if v.op in ('ref', 'dyn'):
        return v
    return mk('ref', mk('O', v), ())

@m('Arc::as_ptr', 'Rc::as_ptr')
def m_arcptr(c, st):
    return m_arcderef(c, st)

@m('Box::new', 'Box::pin', 'Box|From::from')
def m_boxnew(c, st):
    return c.I.alloc(st, c.args[0])

@m('Arc::new', 'Rc::new')
def m_arcnew(c, st):
    r = c.I.alloc(st, c.args[0])
    st.x[('rc', r.a[0])] = 1
    return r

@m('Arc|Clone::clone', 'Rc|Clone::clone')
def m_arcclone(c, st):
    v = c.I.load(st, c.args[0])
    if v.op == 'ref' and ('rc', v.a[0]) in st.x:
        st.x[('rc', v.a[0])] += 1
    else:
        c.I.note(st, 'arcclone', v=v)
    return v

@m('Box::leak')
def m_leak(c, st):
    c.I.note(st, 'leak', v=c.args[0])
    return c.args[0]

@m('Box::into_raw', 'Arc::into_raw', 'Rc::into_raw', 'Box::into_non_null')
def m_into_raw(c, st):
    c.I.note(st, 'into_raw', v=c.args[0], ty=tn(c.I, c.argtys[0]))
    return c.args[0]

@m('Box::from_raw', 'Arc::from_raw', 'Rc::from_raw')
def m_from_raw(c, st):
    c.I.note(st, 'from_raw', v=c.args[0], ty=tn(c.I, c.argtys[0]))
    return c.args[0]

@m('Box|Drop::drop')
def m_boxdrop(c, st):
    return UNIT

@m('Vec|Default::default', 'Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'String|Default::default', 'PathBuf::new', 'OsString::new', 'VecDeque::new')
def m_vecnew(c, st):
    return EMPTYVEC

@m('HashMap|Default::default', 'HashSet|Default::default', 'BTreeSet|Default::default', 'BTreeMap|Default::default', 'HashMap::new', 'HashSet::new',
   'BTreeMap::new', 'BTreeSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity')
def m_mapnew(c, st):
    return MEMPTY

@m('bool|Default::default')
def m_boolnew(c, st):
    return FALSE

def int0(c, st):
    return I(0)

for n in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
    BY[n + '|Default::default'] = int0
    BY[n + '|One::one'] = lambda c, st: I(1)
    BY[n + '|Zero::zero'] = int0

    def _satsub(c, st):
        a, b = c.args[0], c.args[1]
        if a.op in ('ref',):
            return NotImplemented
        return Alts([([(lt(a, b), True)], lambda s: I(0)), ([(lt(a, b), False)], lambda s: sub(a, b))])
    BY[n + '::saturating_sub'] = _satsub if n[0] == 'u' else (lambda c, st: sub(c.args[0], c.args[1]))
    MAXOF = (1 << (64 if 'size' in n else int(n[1:]))) - 1
    def _wrapadd(c, st, n=n, MAX=MAXOF, form=None):
        # what a carried addition makes; bytes can be told apart, sums of 64 bits are taken not to reach the end
        a, b = c.args[0], c.args[1]
        how = c.f['path'].split('::')[-1].split('_')[0]
        r = add(a, b)
        def out(v, over):
            if how == 'overflowing':
                return mk('agg', 'tup', 0, (v, over if isinstance(over, Term) else B(over)))
            if how == 'checked':
                return none(c) if over else some(c, v)
            return v
        past = I(MAX) if how == 'saturating' else None
        if n[0] != 'u':
            return out(r, mk('overflows', r)) if how == 'overflowing' else r
        if r.op == 'int':
            return out(r, False) if r.a[0] <= MAX else out(past or I(r.a[0] - MAX - 1), True)
        if n != 'u8':
            if how == 'overflowing':
                return Alts([([(mk('overflows', r), True)], lambda s: out(mk('opq', 'wrapped', s.fresh()), True)), ([(mk('overflows', r), False)], lambda s: out(r, False))])
            return r
        if a.op == 'int':
            a, b = b, a
        cond = eq0(add(a, I(-MAX))) if b is I(1) else lt(I(MAX), r)
        over = I(0) if b is I(1) else add(r, I(-MAX - 1))
        d = c.I.decide(st, cond)
        if d is not None:
            return out(past or over, True) if d else out(r, False)
        return Alts([([(cond, True)], lambda s: out(past or over, True)), ([(cond, False)], lambda s: out(r, False))])
    BY[n + '::saturating_add'] = _wrapadd
    BY[n + '::wrapping_add'] = _wrapadd
    BY[n + '::wrapping_sub'] = lambda c, st: sub(c.args[0], c.args[1])
    BY[n + '::wrapping_mul'] = lambda c, st: mul(c.args[0], c.args[1])
    BY[n + '::unchecked_add'] = lambda c, st: add(c.args[0], c.args[1])
    BY[n + '::unchecked_sub'] = lambda c, st: sub(c.args[0], c.args[1])
    BY[n + '::strict_add'] = lambda c, st: add(c.args[0], c.args[1])
    BY[n + '::strict_sub'] = lambda c, st: sub(c.args[0], c.args[1])
    BY[n + '::next_multiple_of'] = lambda c, st: ceil(c.args[0], c.args[1])
    BY[n + '::div_ceil'] = lambda c, st: div(ceil(c.args[0], c.args[1]), c.args[1])
    BY[n + '::div_floor'] = lambda c, st: div(c.args[0], c.args[1])
    BY[n + '::rem_euclid'] = lambda c, st: rem(c.args[0], c.args[1])
    BY[n + '::div_euclid'] = lambda c, st: div(c.args[0], c.args[1])
    BY[n + '::is_multiple_of'] = lambda c, st: eq0(rem(c.args[0], c.args[1]))
    BY[n + '::abs_diff'] = lambda c, st: mk('absdiff', c.args[0], c.args[1])
    def _integer_div(c, st):
        return div(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1]))
    BY[n + '|Integer::div_floor'] = _integer_div
    BY[n + '|Integer::mod_floor'] = lambda c, st: rem(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1]))
    BY[n + '|Integer::is_multiple_of'] = lambda c, st: eq0(rem(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1])))
    BY[n + '|Integer::next_multiple_of'] = lambda c, st: ceil(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1]))
    BY[n + '|Integer::prev_multiple_of'] = lambda c, st: floor(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1]))
    def _chk(fn, isb):
        def g(c, st):
            a, b = c.args[0], c.args[1]
            cond = lt(a, b) if isb else mk('overflows', fn(a, b))
            return Alts([([(cond, True)], lambda s: none(c)), ([(cond, False)], lambda s: some(c, fn(a, b)))])
        return g
    BY[n + '::checked_sub'] = _chk(sub, n[0] == 'u')
    BY[n + '::checked_add'] = _chk(add, False)
    BY[n + '::checked_mul'] = _chk(mul, False)
    def _chkdiv(c, st):
        z = eq0(c.args[1])
        return Alts([([(z, True)], lambda s: none(c)), ([(z, False)], lambda s: some(c, div(c.args[0], c.args[1])))])
    BY[n + '::checked_div'] = _chkdiv
    BY[n + '::overflowing_add'] = _wrapadd
    if n == 'u8':
        BY[n + '::checked_add'] = _wrapadd


# ------------------------------------------------------------------ clone / eq / conversion by trait

@t('Clone', 'clone')
def t_clone(c, st):
    return c.I.load(st, c.args[0])

@t('ToOwned', 'to_owned')
def t_to_owned(c, st):
    return c.I.resolve(st, c.args[0])

@m('[T]|ToOwned::to_owned', 'str|ToOwned::to_owned', '[T]::to_vec', 'str::to_owned', 'OsStr::to_os_string', 'Path::to_path_buf', 'str::to_string', 'PathBuf|Clone::clone', 'Vec|Clone::clone', 'String|Clone::clone', 'OsString|Clone::clone', 'CStr::to_owned', 'Vec::to_vec', 'str::into_string', 'Path|ToOwned::to_owned', 'OsStr|ToOwned::to_owned')
def m_to_vec(c, st):
    return c.I.resolve(st, c.args[0])

@m('PathBuf|From::from', 'String|From::from', 'OsString|From::from', 'Vec|From::from', 'CString|From::from')
def m_from(c, st):
    return c.I.resolve(st, c.args[0])

@t('PartialEq', 'eq')
def t_eq(c, st):
    return eqterm(c.I.resolve(st, c.args[0]), c.I.resolve(st, c.args[1]))

def eqterm(a, b):
    a, b = strterm(a), strterm(b)
    if a.op == 'int' and b.op == 'int':
        return B(a.a[0] == b.a[0])
    if {a.op, b.op} == {'str', 'vec'}:
        return FALSE
    return eq(a, b)

@t('PartialEq', 'ne')
def t_ne(c, st):
    return not_(t_eq(c, st))

@t('From', 'from')
def t_from(c, st):
    return mk('wrap', tagof(c, '?'), c.args[0])

@t('Into', 'into')
def t_into(c, st):
    return mk('wrap', tagof(c, '?'), c.args[0])

@t('Default', 'default')
def t_default(c, st):
    return default_value(c.I, st, c.destty)

def default_value(I_, st, ty):
    if ty is None or ty < 0:
        return mk('default', '?')
    T = I_.P.T[ty]
    n = T['n']
    if T['k'] == 'int':
        return I(0)
    if T['k'] == 'bool':
        return FALSE
    if T['k'] == 'adt':
        p = T['path'].split('::')[-1]
        if p in ('Vec', 'String', 'PathBuf', 'OsString', 'VecDeque'):
            return EMPTYVEC
        if p in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
            return MEMPTY
        if p == 'Option':
            return mk('agg', n, 0, ())
        if p in ('Mutex', 'RwLock'):
            return mk('cell', default_value(I_, st, T['targs'][0]))
    if T['k'] == 'tuple':
        return mk('agg', 'tup', 0, tuple(default_value(I_, st, x) for x in T['ts']))
    return mk('default', n)

@m('Mutex|Default::default')
def m_mutexdefault(c, st):
    return default_value(c.I, st, c.destty)

# ------------------------------------------------------------------ panics

def panic(c, st):
    return Diverge(('panic', c.f['path']))

for n in ('panicking::assert_failed', 'panicking::panic', 'panicking::panic_fmt', 'panicking::unimplemented_default_msg', 'option::expect_failed',
          'option::unwrap_failed', 'unwrap_failed::unwrap_failed_inner', 'result::unwrap_failed', 'num::from_ascii_bytes_radix_panic', 'panicking::panic_explicit',
          'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_const', 'panicking::panic_str_2015', 'rt::begin_panic', 'process::abort', 'process::exit',
          'panicking::assert_failed_inner', 'panicking::panic_bounds_check', 'panicking::panic_nounwind', 'panicking::panic_fmt', 'panicking::begin_panic', 'hint::unreachable_unchecked', 'intrinsics::abort', 'panicking::unreachable_display'):
    BY[n] = panic

for n in ('intrinsics::assert_inhabited', 'intrinsics::assert_zero_valid', 'intrinsics::cold_path', 'unreachable_unchecked::precondition_check',
          'write_bytes::precondition_check', 'hint::spin_loop', 'intrinsics::assume'):
    BY[n] = lambda c, st: UNIT

# ------------------------------------------------------------------ anyhow / errors

@m('Error::msg', '__private::format_err', 'error::format_err')
def m_anyerr(c, st):
    return mk('anyerr', st.fresh())

@m('Error|From::from')
def m_anyfrom(c, st):
    # anyhow::Error::from(e), io::Error::from(..): the cause is kept
    return mk('wrap', tagof(c, '?'), c.args[0])

@m('anyhow::Ok')
def m_anyok(c, st):
    return ok(c, c.args[0])

def _split(c, st, v, okidx, on_ok, on_err):
    """dispatch on a two-variant value"""
    if v.op == 'agg':
        f = v.a[2][0] if v.a[2] else UNIT
        return on_ok(st, f) if v.a[1] == okidx else on_err(st, f)
    d = mk('discr', v)
    c.I.discr_dom.setdefault(d, (0, 1))
    return Alts([([(mk('isd', v, okidx), True)], lambda s: on_ok(s, mk('fld', mk('as', v, okidx), 0))),
                 ([(mk('isd', v, 1 - okidx), True)], lambda s: on_err(s, mk('fld', mk('as', v, 1 - okidx), 0)))])

@m('Result|Context::context', 'Result|Context::with_context', 'Option|Context::context', 'Option|Context::with_context')
def m_context(c, st):
    isopt = c.argtys[0] is not None and tn(c.I, c.argtys[0]).startswith('std::option')
    if isopt:
        return _split(c, st, c.args[0], 1, lambda s, f: ok(c, f), lambda s, f: err(c, mk('anyerr', s.fresh())))
    return _split(c, st, c.args[0], 0, lambda s, f: ok(c, f), lambda s, f: err(c, mk('wrap', 'ctx', f)))

@m('Error::root_cause')
def m_root_cause(c, st):
    v = arg(c, st, 0)
    # (an io::Error made from an errno is itself the root cause)
    while v.op == 'wrap' and not (v.a[0] == 'std::io::Error' and unwrap_err(v).op in ('errno', 'int', 'iofromerrno')):
        v = v.a[1]
    v = c.I.resolve(st, v)
    return c.I.alloc(st, mk('rootcause', v))

def unwrap_err(v):
    while v.op == 'wrap':
        v = v.a[1]
    return v

@m("Error + 'static)::downcast_ref", 'Error::downcast_ref')
def m_downcast(c, st):
    v = c.I.resolve(st, c.args[0])
    tgt = tn(c.I, c.destty)
    inner = v
    if inner.op == 'rootcause':
        inner = inner.a[0]
    a = mk('isa', inner, tgt)
    r = c.args[0] if inner is v else c.I.alloc(st, inner)
    # a value whose concrete type is known decides the downcast
    if inner.op == 'agg' and isinstance(inner.a[0], str):
        if ('<&' + inner.a[0] + '>') in (tgt or '') or (tgt or '').endswith('&' + inner.a[0] + '>'):
            return some(c, r)
        return none(c)
    if inner.op in ('ioerr', 'iofromerrno', 'sqlerr', 'errno') or inner.op == 'wrap' and inner.a[0] == 'std::io::Error':
        want = {'sqlerr': 'rusqlite::Error', 'errno': 'Errno'}.get(inner.op, 'std::io::Error')
        return some(c, r) if want in (tgt or '') else none(c)
    return Alts([([(a, True)], lambda s: some(c, r)), ([(a, False)], lambda s: none(c))])

@m('Error::kind')
def m_iokind(c, st):
    e = unwrap_err(arg(c, st, 0))
    if e.op == 'ioerr' and len(e.a) > 2 and e.a[1] == 'new':
        return e.a[2]
    if e.op == 'iofromerrno' and e.a[0] == mk('int', EAGAIN) and would_block(c.I):
        n, d, i = would_block(c.I)
        return mk('agg', n, i, ())
    return mk('iokind', e)

@m('Error::raw_os_error')
def m_raw_os(c, st):
    e = unwrap_err(arg(c, st, 0))
    if e.op == 'iofromerrno':
        return some(c, e.a[0])
    if e.op in ('errno', 'errnoval'):
        return some(c, mk('errnoval', e) if e.op == 'errno' else e)
    if e.op == 'ioerr' and len(e.a) > 1 and isinstance(e.a[1], Term) and e.a[1].op == 'errno':
        return some(c, mk('oserr', e))         # made from errno
    if e.op == 'ioerr' and len(e.a) > 1 and e.a[1] == 'new':
        return none(c)
    h = mk('hasos', e)
    return Alts([([(h, True)], lambda s: some(c, mk('oserr', e))), ([(h, False)], lambda s: none(c))])

@m('Error::last_os_error')
def m_last_os(c, st):
    e = st.x.get('errno')
    if e is None:
        return mk('ioerr', st.fresh(), 'errno')
    if e.op == 'agg' and e == errno_term(c.I, EAGAIN):
        e = mk('int', EAGAIN)
    if e.op == 'int':
        return mk('iofromerrno', e)
    r = mk('ioerr', st.fresh(), e)
    if isinstance(st.facts.get(mk('discr', e)), frozenset) and EAGAIN in st.facts[mk('discr', e)]:
        c.I.assume(st, eq0(sub(mk('oserr', r), mk('int', EAGAIN))), False)
        w = would_block(c.I)
        if w is not None:
            c.I.assume_discr(st, mk('discr', mk('iokind', r)), w[1], False)
    return r

def would_block(I_):
    for n, ty in I_.P.tyname.items():
        if n.endswith('io::ErrorKind') and I_.P.T[ty]['k'] == 'adt':
            for i, v in enumerate(I_.P.T[ty]['variants']):
                if v['n'] == 'WouldBlock':
                    return n, int(v['d']), i

@m('Error::from_raw_os_error')
def m_from_raw_os(c, st):
    return mk('iofromerrno', c.args[0])

@m('Error::new', 'Error::other', 'Error::new_const', 'Error::from_static_message')
def m_ionew(c, st):
    k = c.args[0] if len(c.args) == 2 else None
    if isinstance(k, Term) and (k.op == 'agg' or k.op == 'iokind'):
        return mk('ioerr', st.fresh(), 'new', k)
    return mk('ioerr', st.fresh(), 'new')

# ------------------------------------------------------------------ formatting / logging

def decode_template(b):
    out = []
    i = 0
    argi = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]))
            i += 3 + n
        else:
            fl = x & 0x3f
            i += 1
            spec = [0, None, None]
            if fl & 1:
                spec[0] = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if fl & 2:
                spec[1] = b[i] | b[i + 1] << 8
                i += 2
            if fl & 4:
                spec[2] = b[i] | b[i + 1] << 8
                i += 2
            if fl & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            out.append((argi, tuple(spec)))
            argi += 1
    return out

@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_pointer', 'Argument::new_octal', 'Argument::new_binary', 'Argument::from_usize')
def m_fmtarg(c, st):
    return mk('fmtarg', canon(c.f['path']).split('_', 1)[-1], c.I.resolve(st, c.args[0]))

@m('Arguments::new')
def m_fmtnew(c, st):
    tpl = c.I.resolve(st, c.args[0])
    av = c.I.resolve(st, c.args[1])
    args_ = seqparts(av)[1]
    if tpl.op != 'str':
        return mk('fmt', (), tuple(args_))
    parts = []
    for p in decode_template(tpl.a[0]):
        if isinstance(p, bytes):
            parts.append(S(p))
        else:
            a = args_[p[0]] if p[0] < len(args_) else mk('undef')
            if a.op == 'fmtarg':
                v = strterm(a.a[1])
                if a.a[0] == 'display' and v.op == 'fmt' and p[1][1] is None:
                    parts.extend(v.a[0])
                    continue
                if a.a[0] == 'display' and v.op == 'str' and p[1][1] is None:
                    parts.append(v)
                    continue
                if a.a[0] == 'display' and v.op == 'int' and p[1][1] is None:
                    parts.append(S(str(v.a[0])))
                    continue
                parts.append(mk('fa', a.a[0], v, p[1]))
            else:
                parts.append(a)
    return mkfmt(parts)

def mkfmt(parts):
    out = []
    for p in parts:
        if p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = S(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    if not out:
        return S(b'')
    if len(out) == 1 and out[0].op == 'str':
        return out[0]
    return mk('fmt', tuple(out))

@m('Arguments::from_str', 'Arguments::new_const')
def m_fmtstr(c, st):
    return c.I.resolve(st, c.args[0])

@m('fmt::format', 'alloc::fmt::format')
def m_format(c, st):
    return c.args[0]

@t('ToString', 'to_string')
def t_tostring(c, st):
    v = strterm(c.I.resolve(st, c.args[0]))
    if v.op in ('str', 'fmt'):
        return v
    return mk('fmt', (mk('fa', 'display', v, (0, None, None)),))

@m('[T]::join', '[T]::concat', 'impl [T]::join')
def m_join(c, st):
    v = c.I.resolve(st, c.args[0])
    sep = strterm(c.I.resolve(st, c.args[1])) if len(c.args) > 1 else S(b'')
    base, el = seqparts(v)
    el = [strterm(c.I.resolve(st, e)) for e in el]
    if base is None and sep.op == 'str' and all(e.op in ('str', 'fmt') for e in el):
        parts = []
        for i, e in enumerate(el):
            if i:
                parts.append(sep)
            parts.extend(e.a[0] if e.op == 'fmt' else [e])
        return mkfmt(parts)
    T = c.I.P.T[c.destty] if c.destty is not None and c.destty >= 0 else {'n': ''}
    if base is None and T['n'].startswith(('std::vec::Vec', 'alloc::vec::Vec')) and (len(c.args) < 2 or c.I.P.T[c.argtys[1]]['n'].startswith('&[')):
        sepv = c.I.resolve(st, c.args[1]) if len(c.args) > 1 else None
        r = EMPTYVEC
        et = c.argtys[0]
        while et is not None and c.I.P.T[et]['k'] in ('ref', 'array', 'slice') and 't' in c.I.P.T[et]:
            isref = c.I.P.T[et]['k'] == 'ref'
            et = c.I.P.T[et]['t']
            if not isref:
                break
        byref = et is not None and c.I.P.T[et]['k'] == 'ref'
        for i, e in enumerate(seqparts(v)[1]):
            if i and sepv is not None:
                r = cat(r, sepv)
            r = cat(r, c.I.resolve(st, c.I.load(st, e) if byref and e.op not in ('ref', 'dyn') else e))
        return r
    return mk('joined', v, sep)

@m('[T]::escape_ascii', 'Path::display')
def m_opaque1(c, st):
    return mk('disp', arg(c, st, 0))

@m('Formatter::write_str', 'Formatter::write_fmt', 'Formatter::pad')
def m_fmtwrite(c, st):
    c.I.note(st, 'fmtwrite', v=arg(c, st, 1))
    return mk('agg', 'std::result::Result<(), std::fmt::Error>', 0, (UNIT,))

def _fmtdbg(c, st):
    return mk('agg', 'std::result::Result<(), std::fmt::Error>', 0, (UNIT,))

for n in ('debug_c_like_enum_write_str', 'debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_field4_finish',
          'debug_struct_field5_finish', 'debug_struct_fields_finish', 'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_tuple_field3_finish'):
    BY['Formatter::' + n] = _fmtdbg

@tp('PartialOrd', 'le', 'lt', 'ge', 'gt', 'partial_cmp')
def tp_level(c, st):
    n = tn(c.I, c.argtys[0]) or ''
    if 'Level' not in n:
        return NotImplemented
    if callee_is_log(c):
        c.I.note(st, 'log', level=show(c.I.resolve(st, c.args[0])))
        return FALSE
    return NotImplemented

def callee_is_log(c):
    n = tn(c.I, c.argtys[0]) or ''
    return bool(re.search(r'(tracing|tracing_core|log)::(metadata::)?Level\b', n)) and c.callee['name'] in ('le', 'lt', 'ge', 'gt')

@m('io::_print', 'io::_eprint', 'stdio::_print', 'stdio::_eprint')
def m_print(c, st):
    c.I.note(st, 'print', v=c.args[0])
    return UNIT

# ------------------------------------------------------------------ mutexes

def lockclass(I_, st, loc, pr, ty):
    """name of the lock: the field it lives in, or its type"""
    name = None
    for p in reversed(pr):
        if p[0] == 'f' and p[2] is not None and p[2] >= 0:
            t_ = I_.P.T[p[2]]
            name = p
            break
    return tn(I_, ty)

def lock_model(mode):
    def f(c, st):
        I_ = c.I
        r = c.args[0]
        loc, pr = I_.deref(r)
        n = st.fresh()
        cls = tn(I_, c.argtys[0])
        I_.note(st, 'lock', id=n, loc=loc, pr=pr, cls=cls, mode=mode)
        g = mk('guard', n, mk('ref', loc, pr + (('inner',),)), mode)
        return ok(c, g)
    return f

BY['Mutex::lock'] = lock_model('w')
BY['RwLock::read'] = lock_model('r')
BY['RwLock::write'] = lock_model('w')

@m('Mutex::try_lock', 'RwLock::try_read', 'RwLock::try_write')
def m_trylock(c, st):
    loc, pr = c.I.deref(c.args[0])
    cls = tn(c.I, c.argtys[0])
    def got(s):
        n = s.fresh()
        c.I.note(s, 'lock', id=n, loc=loc, pr=pr, cls=cls, mode='try')
        return ok(c, mk('guard', n, mk('ref', loc, pr + (('inner',),)), 'w'))
    return Alts([((), got), ((), lambda s: err(c, mk('trylockerr', s.fresh())))])

@m('Mutex::new', 'RwLock::new', 'Cell::new', 'RefCell::new')
def m_mutexnew(c, st):
    return mk('cell', c.args[0])

@m('Mutex::get_mut', 'RwLock::get_mut')
def m_getmut(c, st):
    loc, pr = c.I.deref(c.args[0])
    return ok(c, mk('ref', loc, pr + (('inner',),)))

@m('Mutex::into_inner', 'RwLock::into_inner')
def m_intoinner(c, st):
    return ok(c, c.I.project(st, c.args[0], ('inner',)))

@m('MutexGuard|Deref::deref', 'MutexGuard|DerefMut::deref_mut', 'RwLockReadGuard|Deref::deref', 'RwLockWriteGuard|Deref::deref', 'RwLockWriteGuard|DerefMut::deref_mut')
def m_guardderef(c, st):
    g = c.I.load(st, c.args[0])
    n = 4
    while g.op == 'ref' and n:
        g = c.I.load(st, g)
        n -= 1
    if g.op == 'guard':
        return g.a[1]
    return mk('ref', mk('O', g), ())

@m('PoisonError::new', 'PoisonError::into_inner')
def m_poison(c, st):
    return c.args[0]

# ------------------------------------------------------------------ lazies, env, time, random

@m('OnceCell::get_or_init', 'OnceLock::get_or_init', 'LazyLock::force')
def m_once(c, st):
    loc, pr = c.I.deref(c.args[0])
    v = st.x.get(('once', loc, pr))
    if v is not None:
        return v
    return Call(c.args[1], [], 'once', (loc, pr))

@cont('once')
def c_once(I_, st, data, v):
    r = I_.alloc(st, v)
    st.x[('once',) + data] = r
    return r

@m('env::var', 'env::var_os')
def m_env(c, st):
    k = strterm(arg(c, st, 0))
    e = mk('envset', k)
    tag = tagof(c, 'Result')
    vt = None
    for n, ty in c.I.P.tyname.items():
        if n.endswith('VarError') and c.I.P.T[ty]['k'] == 'adt':
            vt = n
    if c.f['path'].endswith('var_os'):
        return Alts([([(e, True)], lambda s: some(c, mk('envval', k))), ([(e, False)], lambda s: none(c))])
    return Alts([([(e, True)], lambda s: ok(c, mk('envval', k))),
                 ([(e, False)], lambda s: err(c, mk('agg', vt or 'std::env::VarError', 0, ())))])

@m('rand::random', 'random::random')
def m_random(c, st):
    return mk('rnd', st.fresh())

@m('Instant::now', 'SystemTime::now', 'Instant::elapsed', 'rand::thread_rng', 'thread::thread_rng', 'rngs::thread_rng')
def m_time(c, st):
    return mk('time', st.fresh())

@m('Duration::from_secs', 'Duration::from_millis')
def m_dur(c, st):
    return mk('dur', c.args[0])

@m('thread::sleep')
def m_sleep(c, st):
    c.I.note(st, 'sleep', d=c.args[0])
    return UNIT

@m('rusqlite::version_number')
def m_vern(c, st):
    return mk('sqlitever')

@m('rusqlite::version')
def m_ver(c, st):
    return mk('sqliteverstr')

# ------------------------------------------------------------------ threads and channels

@m('thread::spawn')
def m_spawn(c, st):
    c.I.note(st, 'spawn', f=c.args[0])
    c.I.spawned.append((c.args[0], dict(st.mem), st.ctr, dict(st.x), st.x.get("span"), dict(st.facts)))
    return mk('join', st.fresh())

@m('thread::scope')
def m_scope(c, st):
    return Call(c.args[0], [mk('scope', st.fresh())])

@m('Scope::spawn')
def m_scopespawn(c, st):
    return Call(c.args[1], [], 'scopejoin', None)

@cont('scopejoin')
def c_sj(I_, st, data, v):
    return mk('joined', v)

@m('ScopedJoinHandle::join')
def m_sjoin(c, st):
    v = c.args[0]
    return ok(c, v.a[0] if v.op == 'joined' else mk('opq', 'join', st.fresh()))

@m('mpsc::channel', 'mpsc::sync_channel')
def m_channel(c, st):
    n = st.fresh()
    c.I.note(st, 'channel', id=n, cap=c.args[0] if c.args else None)
    return mk('agg', 'tup', 0, (mk('sender', n), mk('receiver', n)))

def send_model(blocking):
    def f(c, st):
        ch = arg(c, st, 0)
        v = c.args[1]
        tag = tagof(c, 'Result')
        n = st.fresh()
        def o(s):
            c.I.note(s, 'send', ch=ch, v=v, outcome='ok', blocking=blocking, id=n)
            return ok(c, UNIT)
        alts = []
        if blocking:
            def ce(s):
                c.I.note(s, 'send', ch=ch, v=v, outcome='disc', blocking=True, id=n)
                return err(c, mk('agg', 'std::sync::mpsc::SendError', 0, (v,)))
            alts.append(((), ce))
        else:
            et = None
            T = c.I.P.T[c.destty] if c.destty is not None and c.destty >= 0 else {}
            if T.get('k') == 'adt' and len(T.get('targs') or ()) > 1:
                et = c.I.P.T[T['targs'][1]]['n']
            if not et or 'TrySendError' not in et:
                et = next((n_ for n_, ty in c.I.P.tyname.items() if n_.startswith('std::sync::mpsc::TrySendError<') and c.I.P.T[ty]['k'] == 'adt'), None)
            vs = c.I.P.T[c.I.P.tyname[et]]['variants'] if et else [{'n': 'Full'}, {'n': 'Disconnected'}]
            for i, var in enumerate(vs):
                def ce(s, i=i, var=var):
                    c.I.note(s, 'send', ch=ch, v=v, outcome=var['n'].lower(), blocking=False, id=n)
                    return err(c, mk('agg', et or 'std::sync::mpsc::TrySendError', i, (v,)))
                alts.append(((), ce))
        alts.append(((), o))
        return Alts(alts)
    return f

BY['SyncSender::send'] = send_model(True)
BY['Sender::send'] = send_model(True)
BY['SyncSender::try_send'] = send_model(False)

@m('Receiver::recv', 'Receiver::try_recv', 'Receiver::recv_timeout')
def m_recv(c, st):
    ch = arg(c, st, 0)
    kind = c.f['path'].split('::')[-1]
    to = c.args[1] if len(c.args) > 1 else None
    def o(s):
        k = s.fresh()
        v = mk('recvd', ch, k)
        c.I.note(s, 'recv', ch=ch, kind=kind, outcome='ok', v=v, timeout=to)
        return ok(c, v)
    alts = [((), o)]
    errty = None
    T = c.I.P.T[c.destty]
    if T['k'] == 'adt' and len(T['targs']) > 1:
        errty = c.I.P.T[T['targs'][1]]
    vs = errty['variants'] if errty and errty.get('variants') else []
    if errty and errty.get('kind') == 'enum':
        for i, var in enumerate(vs):
            def ce(s, i=i, var=var):
                c.I.note(s, 'recv', ch=ch, kind=kind, outcome=var['n'].lower(), timeout=to)
                return err(c, mk('agg', errty['n'], i, ()))
            alts.append(((), ce))
    else:
        def ce(s):
            c.I.note(s, 'recv', ch=ch, kind=kind, outcome='disconnected', timeout=to)
            return err(c, mk('agg', errty['n'] if errty else 'RecvError', 0, ()))
        alts.append(((), ce))
    return Alts(recv_limit(c.I, st, ch, alts))

def recv_limit(I_, st, ch, alts):
    """a bound on what is received: on the number of attempts, or (configured) of successes"""
    oks = I_.cfg.get('recv_ok')
    n = st.x.get(('recvcount', ch), 0)
    if n >= (oks or 2):
        alts = alts[1:] or alts
    elif oks:
        first = alts[0][1]
        def counted(s):
            s.x[('recvcount', ch)] = n + 1
            return first(s)
        return [(alts[0][0], counted)] + alts[1:]
    if not oks:
        st.x[('recvcount', ch)] = n + 1
    return alts

# ------------------------------------------------------------------ files

def fileval(c, st, i=0):
    v = c.I.resolve(st, c.args[i])
    return v

def fs_alt(c, st, op, okf, extra=None, fresh_err='ioerr', ok_only=False):
    """event `fs` with outcome; okf(s) -> Ok payload"""
    d = dict(op=op)
    d.update(extra or {})
    n = st.fresh()
    def o(s):
        v = okf(s)
        c.I.note(s, 'fs', outcome='ok', id=n, ret=v, **d)
        return ok(c, v)
    def e(s):
        x = mk('ioerr', n, op)
        c.I.note(s, 'fs', outcome='err', id=n, ret=x, **d)
        return err(c, x)
    return Alts([((), e), ((), o)])

@m('OpenOptions::new')
def m_oonew(c, st):
    return mk('oo', ())

@m('File::options')
def m_ooopt(c, st):
    return mk('oo', ())

def oo_set(name):
    def f(c, st):
        r = c.args[0]
        v = c.I.load(st, r)
        val = c.args[1]
        if v.op == 'oo':
            d = dict(v.a[0])
            d[name] = val
            c.I.store(st, r, mk('oo', tuple(sorted(d.items(), key=lambda x: x[0]))))
        return r
    return f

for n in ('append', 'create', 'create_new', 'read', 'write', 'truncate', 'custom_flags', 'mode'):
    BY['OpenOptions::' + n] = oo_set(n)
    BY['OpenOptions|OpenOptionsExt::' + n] = oo_set(n)

def do_open(c, st, path, flags):
    n = st.fresh()
    def o(s):
        f = mk('file', n)
        s.x[('file', f)] = (path, flags)
        c.I.note(s, 'open', file=f, path=path, flags=flags, outcome='ok')
        return ok(c, f)
    def e(s):
        x = mk('ioerr', n, 'open')
        c.I.note(s, 'open', file=None, path=path, flags=flags, outcome='err', ret=x)
        return err(c, x)
    return Alts([((), e), ((), o)])

@m('OpenOptions::open')
def m_ooopen(c, st):
    v = c.I.resolve(st, c.args[0])
    fl = {k: x for k, x in v.a[0]} if v.op == 'oo' else {'?': v}
    flags = tuple(k for k, x in sorted(fl.items()) if x is not FALSE)
    return do_open(c, st, path_of(c, st, 1), flags)

@m('File::open')
def m_fopen(c, st):
    return do_open(c, st, path_of(c, st, 0), ('read',))

@m('File::create')
def m_fcreate(c, st):
    return do_open(c, st, path_of(c, st, 0), ('create', 'truncate', 'write'))

@m('File::create_new')
def m_fcreatenew(c, st):
    return do_open(c, st, path_of(c, st, 0), ('create_new', 'write'))

@m('File::try_clone')
def m_fclone(c, st):
    f = fileval(c, st)
    return fs_alt(c, st, 'dup', lambda s: mk('dupfile', f), {'file': f})

def newpos(s, f):
    n = s.fresh()
    p = mk('pos', f, n)
    s.x[('pos', f)] = p
    return p

@m('File|Seek::seek')
def m_seek(c, st):
    f = fileval(c, st)
    frm = c.args[1]
    if frm.op == 'agg' and frm.a[1] == 2 and frm.a[2][0] is I(0):
        return m_spos(c, st)
    def o(s):
        if frm.op == 'agg':
            v = frm.a[1]
            x = frm.a[2][0]
            if v == 0:
                p = x
            elif v == 1:
                p = add(mk('fend', f, s.fresh()), x)
            else:
                p = add(s.x.get(('pos', f)) or mk('pos', f, 0), x)
        else:
            p = mk('pos', f, s.fresh())
        s.x[('pos', f)] = p
        return p
    return fs_alt(c, st, 'seek', o, {'file': f, 'to': frm})

@m('File|Seek::stream_position')
def m_spos(c, st):
    f = fileval(c, st)
    def o(s):
        p = s.x.get(('pos', f))
        if p is None:
            p = mk('pos', f, 0)
            s.x[('pos', f)] = p
        return p
    return fs_alt(c, st, 'position', o, {'file': f})

@m('File|Seek::rewind')
def m_rewind(c, st):
    f = fileval(c, st)
    def o(s):
        s.x[('pos', f)] = mk('int', 0)
        return UNIT
    return fs_alt(c, st, 'seek', o, {'file': f, 'to': mk('agg', 'std::io::SeekFrom', 0, (mk('int', 0),))})

@m('File|Seek::stream_len')
def m_slen(c, st):
    f = fileval(c, st)
    return fs_alt(c, st, 'len', lambda s: mk('fend', f, s.fresh()), {'file': f})

@m('File::set_len')
def m_setlen(c, st):
    f = fileval(c, st)
    n = c.args[1]
    return fs_alt(c, st, 'set_len', lambda s: UNIT, {'file': f, 'n': n})

@m('File::sync_all', 'File::sync_data', 'File|Write::flush')
def m_sync(c, st):
    return fs_alt(c, st, 'sync', lambda s: UNIT, {'file': fileval(c, st)})

@m('File|Write::write', 'File|Write::write_all', 'File|FileExt::write_at', 'File|FileExt::write_all_at')
def m_fwrite(c, st):
    f = fileval(c, st)
    buf = c.args[1]
    def o(s):
        newpos(s, f)
        return mk('nwritten', s.fresh()) if c.f['path'].endswith('write') else UNIT
    return fs_alt(c, st, 'write', o, {'file': f, 'buf': c.I.resolve(st, buf)})

def fread(c, st, f, buf, blen, how):
    pos = st.x.get(('pos', f)) or mk('pos', f, 0)
    def o(s):
        if how == 'read_exact':
            s.x[('pos', f)] = add(pos, blen)
            return UNIT
        newpos(s, f)
        return mk('nread', s.fresh())
    d = {'file': f, 'pos': pos, 'buf': buf, 'blen': blen, 'how': how}
    return fs_alt(c, st, 'read', o, d)

@m('File|Read::read', 'File|Read::read_exact', 'File|Read::read_to_end')
def m_fread(c, st):
    f = fileval(c, st)
    buf = c.args[1]
    how = c.f['path'].split('::')[-1]
    return fread(c, st, f, buf, mk('unbounded') if how == 'read_to_end' else c.I.len_of(st, c.I.resolve(st, buf)), how)

@m('Read::take')
def m_taker(c, st):
    v = c.args[0]
    if v.op == 'ref':
        x = c.I.resolve(st, v)
        ty = tn(c.I, c.argtys[0])
        if 'std::fs::File' in ty:
            return mk('takerd', x, c.args[1])
    return NotImplemented if 'blocks' in c.f else mk('opq', 'take', st.fresh(), tuple(c.args))

@m('Take|Read::read')
def m_takeread(c, st):
    v = arg(c, st, 0)
    if v.op != 'takerd':
        return NotImplemented if 'blocks' in c.f else mk('opq', 'take', st.fresh(), tuple(c.args))
    n = c.I.len_of(st, c.I.resolve(st, c.args[1]))
    lim = v.a[1]
    return Alts([([(lt(n, lim), True)], lambda s: fread(c, s, v.a[0], c.args[1], n, 'read')),
                 ([(lt(n, lim), False)], lambda s: fread(c, s, v.a[0], c.args[1], lim, 'read'))])

@m('File|ReadAt::read_at', 'File|FileExt::read_at', 'File|ReadAt::read_exact_at', 'File|FileExt::read_exact_at')
def m_readat(c, st):
    f = fileval(c, st)
    if 'FileExt' in c.f['path']:
        buf, pos = c.args[1], c.args[2]
    else:
        pos, buf = c.args[1], c.args[2]
    how = c.f['path'].split('::')[-1]
    return fs_alt(c, st, 'read_at', lambda s: UNIT if 'exact' in how else mk('nread', s.fresh()), {'file': f, 'pos': pos, 'buf': buf, 'blen': c.I.len_of(st, c.I.resolve(st, buf)), 'how': how})

@m('AsRef::as_ref', 'Borrow::borrow')
def t_asref(c, st):
    # of a type parameter: the same for the same receiver
    return mk('ref', mk('O', mk('asref', c.args[0])), ())

@t('ReadAt', 'read_at')
def t_readat(c, st):
    return m_readat(c, st)

@m('io::copy', 'copy::copy', 'copy::generic_copy')
def m_iocopy(c, st):
    r = c.I.resolve(st, c.args[0])
    w = c.I.resolve(st, c.args[1])
    def run(s, okk):
        newpos(s, w)
    n = st.fresh()
    def o(s):
        newpos(s, w)
        v = mk('ncopied', n)
        c.I.note(s, 'fs', op='copy', outcome='ok', id=n, file=w, src=r, ret=v)
        return ok(c, v)
    def e(s):
        newpos(s, w)
        x = mk('ioerr', n, 'copy')
        c.I.note(s, 'fs', op='copy', outcome='err', id=n, file=w, src=r, ret=x)
        return err(c, x)
    return Alts([((), e), ((), o)])

@m('File::metadata', 'fs::metadata', 'Path::metadata', 'fs::symlink_metadata', 'DirEntry::metadata')
def m_metadata(c, st):
    f = fileval(c, st)
    return fs_alt(c, st, 'metadata', lambda s: mk('meta', f, s.fresh()), {'file': f})

@m('Metadata::len', 'Metadata|MetadataExt::size', 'Metadata|MetadataExt::st_size')
def m_mlen(c, st):
    v = arg(c, st, 0)
    if v.op == 'meta':
        return mk('fend', v.a[0], v.a[1])
    return mk('mlen', v)

@m('Metadata|MetadataExt::st_blksize', 'Metadata|MetadataExt::blksize')
def m_blk(c, st):
    return mk('blksize', arg(c, st, 0))

@m('Metadata|MetadataExt::blocks', 'Metadata|MetadataExt::st_blocks')
def m_blks(c, st):
    return mk('blocks', arg(c, st, 0))

@m('File|AsRawFd::as_raw_fd', 'File|AsFd::as_fd', 'File|AsFd::as_handle')
def m_fd(c, st):
    return mk('fd', fileval(c, st))

@m('BorrowedFd|AsRawFd::as_raw_fd')
def m_fd2(c, st):
    return arg(c, st, 0)

def fsp(op, okf=lambda s: UNIT):
    def f(c, st):
        d = {'path': path_of(c, st, 0)}
        if len(c.args) > 1:
            d['path2'] = path_of(c, st, 1)
        return fs_alt(c, st, op, okf, d)
    return f

BY['fs::remove_file'] = fsp('remove_file')
BY['fs::remove_dir'] = fsp('remove_dir')
BY['fs::remove_dir_all'] = fsp('remove_dir_all')
BY['fs::create_dir_all'] = fsp('create_dir')
BY['fs::create_dir'] = fsp('create_dir')
BY['fs::rename'] = fsp('rename')
BY['fs::hard_link'] = fsp('hard_link')
BY['fs::copy'] = fsp('fscopy', lambda s: mk('ncopied', s.fresh()))
BY['fs::write'] = fsp('fswrite')
BY['fs::exists'] = fsp('exists', lambda s: mk('exists', s.fresh()))

@m('fs::read_dir', 'Path::read_dir')
def m_readdir(c, st):
    p = path_of(c, st, 0)
    n = st.fresh()
    return fs_alt(c, st, 'read_dir', lambda s: mk('it', 'rd', n, 0, p), {'path': p})

@m('ReadDir|Iterator::next')
def m_rdnext(c, st):
    I_ = c.I
    r = c.args[0]
    v = I_.load(st, r)
    if v.op != 'it':
        return mk('opq', 'readdir', st.fresh())
    n, k, p = v.a[1], v.a[2], v.a[3]
    tag = tagof(c, 'Option')
    T = I_.P.T[c.destty]
    rtag = I_.P.T[T['targs'][0]]['n']
    h = mk('has', mk('rd', n), k)
    def stop(s):
        I_.note(s, 'iterend', what='rd', id=n, k=k)
        return none(c)
    if k >= I_.elem_cap or st.elems >= I_.elem_total:
        return Alts([([(h, False)], stop)])
    def yes(s):
        s.elems += 1
        I_.store(s, r, mk('it', 'rd', n, k + 1, p))
        e = mk('dirent', n, k, p)
        return Alts([((), lambda s2: some(c, mk('agg', rtag, 1, (mk('ioerr', s2.fresh(), 'readdir'),)))), ((), lambda s2: some(c, mk('agg', rtag, 0, (e,))))])
    return Alts([([(h, False)], stop), ([(h, True)], yes)])

@m('DirEntry::path')
def m_depath(c, st):
    e = arg(c, st, 0)
    return mk('join', e.a[2] if e.op == 'dirent' else mk('undef'), mk('entname', e))

@m('DirEntry::file_name')
def m_dename(c, st):
    return mk('entname', arg(c, st, 0))

@m('DirEntry::file_type')
def m_detype(c, st):
    e = arg(c, st, 0)
    return fs_alt(c, st, 'file_type', lambda s: mk('enttype', e), {})

@m('FileType::is_file')
def m_isfile(c, st):
    return mk('isfile', arg(c, st, 0))

@m('FileType::is_dir')
def m_isdir(c, st):
    return mk('isdir', arg(c, st, 0))

@m('Path::join', 'PathBuf::join')
def m_pjoin(c, st):
    return mk('join', arg(c, st, 0), arg(c, st, 1))

@m('PathBuf::push')
def m_ppush(c, st):
    c.I.store(st, c.args[0], mk('join', arg(c, st, 0), arg(c, st, 1)))
    return UNIT

@m('Path::file_name')
def m_pfname(c, st):
    v = arg(c, st, 0)
    x = v.a[1] if v.op == 'join' else mk('fname', v)
    if v.op == 'join':
        return some(c, c.I.alloc(st, x))
    h = mk('hasfname', v)
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, c.I.alloc(s, x)))])

@m('Path::parent')
def m_pparent(c, st):
    v = arg(c, st, 0)
    if v.op == 'join':
        return some(c, c.I.alloc(st, v.a[0]))
    h = mk('hasparent', v)
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, c.I.alloc(s, mk('parent', v))))])

@m('Path::to_str', 'OsStr::to_str', 'str::from_utf8', 'String::from_utf8', 'OsString::into_string')
def m_tostr(c, st):
    v = arg(c, st, 0)
    vv = strterm(v)
    isres = 'Result' in (tn(c.I, c.destty) or '')
    good = (lambda s: ok(c, c.args[0])) if isres else (lambda s: some(c, c.args[0]))
    bad = (lambda s: err(c, mk('utf8err', s.fresh()))) if isres else (lambda s: none(c))
    if vv.op in ('str', 'fmt'):
        return good(st)
    u = mk('utf8', v)
    return Alts([([(u, False)], bad), ([(u, True)], good)])

@m('Path::exists', 'Path::is_file', 'Path::is_dir', 'Path::try_exists')
def m_exists(c, st):
    v = arg(c, st, 0)
    c.I.note(st, 'fs', op='exists', path=v, outcome='ok')
    return mk('exists', v, st.fresh())

# strings

@m('str::strip_prefix', '[T]::strip_prefix', 'Path::strip_prefix')
def m_strip(c, st):
    v = strterm(arg(c, st, 0))
    p = strterm(arg(c, st, 1))
    if v.op == 'str' and p.op == 'str':
        return some(c, c.I.alloc(st, S(v.a[0][len(p.a[0]):]))) if v.a[0].startswith(p.a[0]) else none(c)
    if v.op == 'fmt' and p.op == 'str' and v.a[0] and v.a[0][0].op == 'str' and v.a[0][0].a[0].startswith(p.a[0]):
        f = S(v.a[0][0].a[0][len(p.a[0]):])
        rest = ([f] if f.a[0] else []) + list(v.a[0][1:])
        return some(c, c.I.alloc(st, mkfmt(rest)))
    h = mk('pfx', v, p)
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, c.I.alloc(s, mk('strip', v, p))))])

@m('str::starts_with', '[T]::starts_with', 'Path::starts_with')
def m_sw(c, st):
    v = strterm(arg(c, st, 0))
    p = strterm(arg(c, st, 1))
    if v.op == 'str' and p.op == 'str':
        return B(v.a[0].startswith(p.a[0]))
    return mk('pfx', v, p)

@m('str::ends_with', '[T]::ends_with')
def m_ew(c, st):
    return mk('sfx', strterm(arg(c, st, 0)), strterm(arg(c, st, 1)))

@m('str::parse')
def m_parse(c, st):
    v = strterm(arg(c, st, 0))
    tgt = tn(c.I, c.destty)
    # a local FromStr implementation is analysed
    T = c.I.P.T[c.destty]
    okty = T['targs'][0] if T['k'] == 'adt' and T['targs'] else None
    if okty is not None:
        want = '<%s as std::str::FromStr>::from_str' % tn(c.I, okty)
        f = c.I.P.byname.get(want)
        if f is not None and 'blocks' in f:
            return Call(mk('fnid', f['id']), [c.args[0]])
    h = mk('parses', v, tn(c.I, okty) if okty is not None else tgt)
    return Alts([([(h, False)], lambda s: err(c, mk('parseerr', s.fresh()))), ([(h, True)], lambda s: ok(c, mk('parsed', v, h.a[1])))])

for n in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
    def _fsr(c, st, n=n):
        v = strterm(arg(c, st, 0))
        h = mk('parses', v, n, c.args[1])
        return Alts([([(h, False)], lambda s: err(c, mk('parseerr', s.fresh()))), ([(h, True)], lambda s: ok(c, mk('parsed', v, n, c.args[1])))])
    BY[n + '::from_str_radix'] = _fsr

@m('CString::new')
def m_cstr(c, st):
    v = arg(c, st, 0)
    return Alts([((), lambda s: err(c, mk('nulerr', s.fresh()))), ((), lambda s: ok(c, v))])

@m('CStr::from_ptr')
def m_cstrfrom(c, st):
    r = c.I.alloc(st, mk('cstr', c.args[0]))
    return r

@m('slice::from_raw_parts', 'slice::from_raw_parts_mut', 'raw::from_raw_parts', 'raw::from_raw_parts_mut', 'ptr::slice_from_raw_parts', 'ptr::slice_from_raw_parts_mut')
def m_rawparts(c, st):
    c.I.note(st, 'rawslice', p=c.args[0], n_=c.args[1])
    return c.I.alloc(st, mk('raw', c.args[0], c.args[1]))

@m('*const T::as_ref', 'const_ptr::as_ref', 'mut_ptr::as_ref', 'mut_ptr::as_mut', '*mut T::as_mut', '*mut T::as_ref')
def m_ptrasref(c, st):
    p = c.args[0]
    if p.op == 'ref':
        return some(c, p)
    h = mk('isnull', p)
    return Alts([([(h, True)], lambda s: none(c)), ([(h, False)], lambda s: some(c, p))])

@m('*const T::is_null', '*mut T::is_null')
def m_isnull(c, st):
    p = c.args[0]
    if p.op == 'ref':
        return FALSE
    if p.op == 'null':
        return TRUE
    return mk('isnull', p)

@m('ptr::null_mut', 'ptr::null')
def m_null(c, st):
    return mk('null')

@m('*const T::read', '*mut T::read', 'ptr::read', 'ptr::read_unaligned', 'ptr::read_volatile')
def m_ptrread(c, st):
    c.I.note(st, 'rawread', p=c.args[0], ty=tn(c.I, c.destty))
    return c.I.load(st, c.args[0])

@m('*mut T::write', 'ptr::write')
def m_ptrwrite(c, st):
    c.I.store(st, c.args[0], c.args[1])
    c.I.note(st, 'store', loc=c.I.deref(c.args[0])[0], pr=c.I.deref(c.args[0])[1], v=c.args[1])
    return UNIT

@m('*mut T::add', '*const T::add', '*mut T::offset', '*const T::offset')
def m_ptradd(c, st):
    return mk('ptradd', c.args[0], c.args[1])

@m('libc::malloc', 'libc::calloc')
def m_malloc(c, st):
    kind = c.f['path'].split('::')[-1]
    n = c.args[0] if kind == 'malloc' else mul(c.args[0], c.args[1])
    p = mk('cptr', st.fresh(), kind)
    c.I.note(st, 'malloc', kind=kind, n=n, args=tuple(c.args), p=p)
    return p

@m('libc::free')
def m_free(c, st):
    c.I.note(st, 'free', p=c.args[0])
    return UNIT

@m('ptr::copy_nonoverlapping', 'intrinsics::copy_nonoverlapping', 'ptr::copy')
def m_cpy(c, st):
    src = c.args[0]
    dst = c.args[1]
    v = c.I.resolve(st, src)
    c.I.note(st, 'memcpy', src=v, dst=dst, n=c.args[2])
    return UNIT

@m('intrinsics::write_bytes', 'ptr::write_bytes')
def m_wb(c, st):
    # zeroed(): produce a zero value lazily
    r = c.args[0]
    if r.op == 'ref':
        c.I.store(st, r, mk('undef') if c.args[1] is not I(0) else mk('zeroed'))
    return UNIT

@m('mem::zeroed')
def m_zeroed(c, st):
    T = c.I.P.T[c.destty]
    if T['k'] == 'adt' and T['kind'] == 'struct':
        return mk('agg', T['n'], 0, tuple(mk('int', 0) for _ in T['variants'][0]['f']))
    return I(0)

@m('mem::size_of', 'mem::align_of')
def m_sizeof(c, st):
    ta = c.f.get('targs') or []
    return mk('sizeof', tn(c.I, ta[0]) if ta else '?')

@m('mem::forget')
def m_forget(c, st):
    c.I.note(st, 'forget', v=c.args[0])
    return UNIT

@m('mem::take')
def m_take(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], default_value(c.I, st, c.destty))
    return v

@m('mem::replace')
def m_replace(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], c.args[1])
    return v

@m('mem::swap')
def m_swap(c, st):
    a, b = c.I.load(st, c.args[0]), c.I.load(st, c.args[1])
    c.I.store(st, c.args[0], b)
    c.I.store(st, c.args[1], a)
    return UNIT

# ------------------------------------------------------------------ syscalls

EAGAIN = 11

def errno_term(I_, val):
    for n, ty in I_.P.tyname.items():
        if n.endswith('Errno') and I_.P.T[ty]['k'] == 'adt' and I_.P.T[ty]['kind'] == 'enum':
            for i, v in enumerate(I_.P.T[ty]['variants']):
                if int(v['d']) == val:
                    return mk('agg', n, i, ())
    return mk('int', val)

def syscall(c, st, name, **d):
    n = st.fresh()
    def o(s):
        c.I.note(s, 'sys', name=name, outcome='ok', id=n, **d)
        if name != 'lseek':
            return mk('int', 0)
        r = mk('lseekret', n)
        key, sg, k = c.I._bkey(r)
        s.bounds[key] = (0, None, ())
        return r
    def e(s):
        er = mk('errno', n, name)
        s.x['errno'] = er
        if name == 'fcntl':     # (again) is the alternative that sets EAGAIN
            c.I.assume_discr(s, mk('discr', er), EAGAIN, False)
            c.I.assume(s, eq0(sub(mk('errnoval', er), mk('int', EAGAIN))), False)
        c.I.note(s, 'sys', name=name, outcome='err', id=n, errno=er, **d)
        return mk('int', -1)
    alts = [((), e), ((), o)]
    return alts, n

@m('libc::fcntl')
def m_fcntl(c, st):
    fd, cmd = c.args[0], c.args[1]
    fl = c.I.resolve(st, c.args[2]) if len(c.args) > 2 else None
    d = dict(fd=fd, cmd=cmd, arg=fl)
    alts, n = syscall(c, st, 'fcntl', **d)
    def again(s):
        s.x['errno'] = errno_term(c.I, EAGAIN)
        c.I.note(s, 'sys', name='fcntl', outcome='again', id=n, **d)
        return mk('int', -1)
    alts.insert(1, ((), again))
    return Alts(alts)

@m('fcntl::flock')
def m_flock(c, st):
    fd, a = c.args[0], c.args[1]
    n = st.fresh()
    def o(s):
        c.I.note(s, 'sys', name='flock', outcome='ok', id=n, fd=fd, arg=a)
        return ok(c, UNIT)
    def again(s):
        c.I.note(s, 'sys', name='flock', outcome='again', id=n, fd=fd, arg=a)
        return err(c, errno_term(c.I, EAGAIN))
    def e(s):
        c.I.note(s, 'sys', name='flock', outcome='err', id=n, fd=fd, arg=a)
        er = mk('errno', n, 'flock')
        c.I.assume_discr(s, mk('discr', er), EAGAIN, False)
        return err(c, er)
    return Alts([((), e), ((), again), ((), o)])

@m('libc::fallocate64', 'libc::fallocate')
def m_falloc(c, st):
    alts, n = syscall(c, st, 'fallocate', fd=c.args[0], mode=c.args[1], off=c.args[2], len=c.args[3])
    return Alts(alts)

@m('libc::ioctl')
def m_ioctl(c, st):
    alts, n = syscall(c, st, 'ioctl', fd=c.args[0], req=c.args[1], arg=c.args[2] if len(c.args) > 2 else None)
    return Alts(alts)

@m('libc::lseek', 'libc::lseek64')
def m_lseek(c, st):
    alts, n = syscall(c, st, 'lseek', fd=c.args[0], off=c.args[1], whence=c.args[2])
    return Alts(alts)

@m('Errno::result')
def m_errnoresult(c, st):
    r = c.args[0]
    e = eq0(add(r, mk('int', 1)))
    def bad(s):
        er = s.x.get('errno') or mk('errno', s.fresh(), '?')
        if er.op != 'agg' and er.op != 'int':
            c.I.assume_discr(s, mk('discr', er), EAGAIN, False)
        return err(c, er)
    return Alts([([(e, True)], bad), ([(e, False)], lambda s: ok(c, r))])

@m('errno::errno', 'Errno::last_raw')
def m_errno(c, st):
    e = st.x.get('errno') or mk('errno', st.fresh(), '?')
    if e.op == 'agg' and e == errno_term(c.I, EAGAIN):
        return mk('int', EAGAIN)
    return mk('errnoval', e) if e.op == 'errno' else e

@m('Errno::last')
def m_errnolast(c, st):
    return st.x.get('errno') or mk('errno', st.fresh(), '?')

# ------------------------------------------------------------------ tempfile / mmap

@m('Builder::new')
def m_tb(c, st):
    return mk('tbuilder', S(b''))

@m('Builder::prefix')
def m_tbp(c, st):
    c.I.store(st, c.args[0], mk('tbuilder', strterm(arg(c, st, 1))))
    return c.args[0]

@m('Builder::tempdir_in')
def m_tdir(c, st):
    b = arg(c, st, 0)
    p = path_of(c, st, 1)
    n = st.fresh()
    return fs_alt(c, st, 'tempdir', lambda s: mk('tempdir', n, p, b.a[0] if b.op == 'tbuilder' else b), {'path': p, 'prefix': b})

@m('TempDir::path')
def m_tdpath(c, st):
    return c.I.alloc(st, mk('tdpath', arg(c, st, 0)))

@m('TempDir::into_path', 'TempDir::keep', 'TempDir::close')
def m_tdinto(c, st):
    c.I.note(st, 'tempdir_keep', v=c.args[0])
    return mk('tdpath', c.args[0])

@m('NamedTempFile::new_in')
def m_ntf(c, st):
    p = path_of(c, st, 0)
    n = st.fresh()
    return fs_alt(c, st, 'tempfile', lambda s: mk('ntf', n, p), {'path': p})

@m('NamedTempFile::path')
def m_ntfp(c, st):
    return c.I.alloc(st, mk('ntfpath', arg(c, st, 0)))

@m('MmapOptions::new')
def m_mmo(c, st):
    return mk('mmo', ())

@m('MmapOptions::len', 'MmapOptions::offset')
def m_mmolen(c, st):
    v = c.I.load(st, c.args[0])
    k = c.f['path'].split('::')[-1]
    d = dict(v.a[0]) if v.op == 'mmo' else {}
    d[k] = c.args[1]
    c.I.store(st, c.args[0], mk('mmo', tuple(sorted(d.items()))))
    return c.args[0]

@m('MmapOptions::map_copy_read_only', 'MmapOptions::map', 'MmapOptions::map_mut', 'MmapOptions::map_copy')
def m_mmap(c, st):
    v = c.I.load(st, c.args[0])
    f = c.I.resolve(st, c.args[1])
    n = st.fresh()
    d = dict(v.a[0]) if v.op == 'mmo' else {}
    ln = d.get('len') or mk('fend', f, n)
    return fs_alt(c, st, 'mmap', lambda s: mk('mmap', f, d.get('offset') or I(0), ln), {'file': f, 'kind': c.f['path'].split('::')[-1], 'maplen': ln})

# ------------------------------------------------------------------ sqlite

def sqlty(I_, name='Error'):
    for n, ty in I_.P.tyname.items():
        T = I_.P.T[ty]
        if T['k'] == 'adt' and T['path'] == 'rusqlite::' + name:
            return n, T
    return None, None

def norows_term(I_):
    n, T = sqlty(I_)
    if T:
        for i, v in enumerate(T['variants']):
            if v['n'] == 'QueryReturnedNoRows':
                return mk('agg', n, i, ()), int(v['d'])
    return mk('norows'), None

def sqlerr(c, s, what):
    e = mk('sqlerr', s.fresh(), what)
    _, d = norows_term(c.I)
    if d is not None:
        dd = mk('discr', e)
        n, T = sqlty(c.I)
        c.I.discr_dom.setdefault(dd, tuple(int(x['d']) for x in T['variants']))
        s.facts[dd] = frozenset([d])
    return e

def connof(c, st, i=0):
    """the connection or transaction a rusqlite call acts on"""
    v = c.I.resolve(st, c.args[i])
    if v.op == 'txconn':
        v = v.a[0]
    return v

@m('Connection::transaction_with_behavior', 'Connection::transaction', 'Transaction::new', 'Connection::unchecked_transaction', 'Transaction::new_unchecked')
def m_begin(c, st):
    conn = c.I.resolve(st, c.args[0])
    beh = 'Deferred'
    if len(c.args) > 1:
        b = c.args[1]
        beh = b
        if b.op == 'agg':
            t_ = c.I.P.T[c.I.P.tyname[b.a[0]]] if b.a[0] in c.I.P.tyname else None
            beh = t_['variants'][b.a[1]]['n'] if t_ else b.a[1]
    n = st.fresh()
    loc, pr = c.I.deref(c.args[0])
    def o(s):
        tx = mk('tx', n)
        s.x[('tx', tx)] = (beh, 'open')
        c.I.note(s, 'begin', tx=tx, behavior=beh, conn=conn, loc=loc, pr=pr, outcome='ok')
        return ok(c, tx)
    def e(s):
        c.I.note(s, 'begin', tx=None, behavior=beh, conn=conn, loc=loc, pr=pr, outcome='err')
        return err(c, sqlerr(c, s, 'begin'))
    return Alts([((), e), ((), o)])

@m('Transaction::commit', 'Transaction::rollback', 'Transaction::finish')
def m_commit(c, st):
    tx = c.I.resolve(st, c.args[0])
    k = c.f['path'].split('::')[-1]
    def o(s):
        s.x[('tx', tx)] = (s.x.get(('tx', tx), ('?',))[0], k)
        c.I.note(s, k, tx=tx, outcome='ok')
        return ok(c, UNIT)
    def e(s):
        s.x[('tx', tx)] = (s.x.get(('tx', tx), ('?',))[0], 'rolledback')
        c.I.note(s, k, tx=tx, outcome='err')
        return err(c, sqlerr(c, s, k))
    return Alts([((), e), ((), o)])

@m('Transaction::set_drop_behavior')
def m_dropbeh(c, st):
    c.I.note(st, 'dropbehavior', tx=arg(c, st, 0), v=c.args[1])
    st.x[('dropb', arg(c, st, 0))] = c.args[1]
    return UNIT

def _ste(c):
    def e(s):
        return err(c, sqlerr(c, s, 'state'))
    return e

@m('Connection::transaction_state', 'Connection|transaction_state')
def m_txstate(c, st):
    tx = connof(c, st)
    n = st.fresh()
    # after a write statement in this transaction the state is Write; a transaction begun Immediate/Exclusive too
    info = st.x.get(('tx', tx))
    wrote = st.x.get(('wrote', tx))
    # only a schema that doesn't exist makes this fail, and no name means any schema
    a = c.args[1] if len(c.args) > 1 else None
    fails = [] if a is None or a.op == 'agg' and a.a[1] == 0 else [((), _ste(c))]
    nme, T = sqlty(c.I, 'TransactionState')
    if T:
        idx = {v['n']: i for i, v in enumerate(T['variants'])}
        if wrote or info and info[0] in ('Immediate', 'Exclusive'):
            return Alts(fails + [((), lambda s: ok(c, mk('agg', nme, idx['Write'], ())))])
        if info:
            k = 'Read' if st.x.get(('didread', tx)) else 'None'
            return Alts(fails + [((), lambda s: ok(c, mk('agg', nme, idx[k], ())))])
    return Alts(fails + [((), lambda s: ok(c, mk('txstate', tx, n)))])

def prepare(c, st):
    conn = connof(c, st)
    sql = sqltext(c.I, st, c.args[1])
    def o(s):
        return ok(c, mk('stmt', sql, conn, s.fresh()))
    def e(s):
        c.I.note(s, 'exec', op='prepare', sql=sql, params=(), conn=conn, outcome='err', id=s.fresh())
        return err(c, sqlerr(c, s, 'prepare'))
    return Alts([((), e), ((), o)])

BY['Connection::prepare_cached'] = prepare
BY['Connection::prepare'] = prepare
BY['Connection::prepare_with_flags'] = prepare

def sqltext(I_, st, ref):
    return strterm(I_.resolve(st, ref))

@m('Statement::readonly')
def m_readonly(c, st):
    s_ = arg(c, st, 0)
    if s_.op == 'stmt' and s_.a[0].op == 'str':
        return B(sqlan.readonly(s_.a[0].a[0].decode()))
    return mk('readonly', s_)

def params_of(c, st, i):
    v = c.I.resolve(st, c.args[i])
    ty = c.argtys[i]
    base, el = seqparts(v)
    out = []
    if v.op == 'agg' and v.a[0] == 'tup':
        el = list(v.a[2])
        base = None
    if base is not None:
        return (('?', v),)
    ety = None
    if ty is not None and ty >= 0:
        T = c.I.P.T[ty]
        while T['k'] in ('ref', 'ptr'):
            T = c.I.P.T[T['t']]
        if T['k'] in ('array', 'slice'):
            ety = T['t']
    for e in el:
        tyn = tn(c.I, ety) if ety is not None else None
        x = e
        k = 8
        while x.op in ('ref', 'dyn') and k:
            if x.op == 'dyn':
                tyn = x.a[1]
                x = x.a[0]
            else:
                x = c.I.load(st, x)
            k -= 1
        out.append((tyn or '?', deepval(c.I, st, strterm(x))))
    return tuple(out)

def deepval(I_, st, x, d=4):
    """references inside an aggregate replaced by what they refer to"""
    if x.op == 'agg' and d:
        fs = tuple(deepval(I_, st, I_.load(st, y) if y.op == 'ref' else y, d - 1) for y in x.a[2])
        if fs != x.a[2]:
            return mk('agg', x.a[0], x.a[1], fs)
    return x

def null_compare(txt, params):
    """the where clause requires a column to equal a parameter that is known to be null: no row can match"""
    try:
        s = sqlan.one(txt) if txt is not None else None
    except sqlan.SqlError:
        return False
    if not s or not s.get('where') or s['k'] not in ('select', 'update', 'delete'):
        return False
    if s['k'] == 'select' and (any(sqlan.has_agg(x) for x in s['cols']) or not s['from']):
        return False
    for q in sqlan.conjuncts(s['where']):
        if q[0] == 'bin' and q[1] == '=' and q[3][0] == 'param' and 0 < q[3][1] <= len(params):
            v = params[q[3][1] - 1][1]
            if v.op == 'agg' and v.a[0].startswith('std::option::Option<') and v.a[1] == 0:
                return True
    return False

def named(I_, st, txt, params):
    """named parameters in the order of their positions"""
    if txt is None or not params:
        return params
    got = {}
    for ty, v in params:
        if not (v.op == 'agg' and v.a[0] == 'tup' and len(v.a[2]) == 2):
            return params
        n = strterm(I_.resolve(st, v.a[2][0]))
        if n.op != 'str':
            return params
        x = v.a[2][1]
        tyn = '?'
        k = 8
        while x.op in ('ref', 'dyn') and k:
            if x.op == 'dyn':
                tyn = x.a[1]
                x = x.a[0]
            else:
                x = I_.load(st, x)
            k -= 1
        got[n.a[0].decode()] = (tyn, deepval(I_, st, strterm(x)))
    names = sqlan.param_names(txt)
    if not names or any(n not in got for n in names):
        return params
    return tuple(got[n] for n in names)

def do_exec(c, st, op, sql, conn, params, rowfn):
    """rowfn: function value or None"""
    I_ = c.I
    n = st.fresh()
    txt = sql.a[0].decode('utf8', 'replace') if sql.op == 'str' else None
    info = sqlan.info(txt) if txt is not None else None
    params = named(I_, st, txt, params)
    base = dict(op=op, sql=sql, params=params, conn=conn, id=n)
    if info is not None and I_.M.checked_cols:
        rel = {i: x for i, x in enumerate(sqlan.result_names(txt)) if x in I_.M.checked_cols}
        if 'value_length' in rel.values():
            st.x[('cols', n)] = rel
    def mark(s):
        if info is not None and not info['readonly']:
            s.x[('wrote', conn)] = True
        else:
            s.x[('didread', conn)] = True
    def e(s):
        I_.note(s, 'exec', outcome='err', **base)
        return err(c, sqlerr(c, s, n))
    alts = [((), e)]
    if op in ('query_row',):
        if not (info and info['always_row']):
            def nr(s):
                I_.note(s, 'exec', outcome='norows', **base)
                return err(c, norows_term(I_)[0])
            alts.append(((), nr))
        def row(s):
            mark(s)
            I_.note(s, 'exec', outcome='row', **base)
            return Call(rowfn, [mk('rowref', n, 0)])
        if not null_compare(txt, params):
            alts.append(((), row))
    elif op == 'query_map':
        def o(s):
            mark(s)
            I_.note(s, 'exec', outcome='rows', **base)
            return ok(c, mk('it', 'rows', n, 0, rowfn))
        alts.append(((), o))
    else:
        ctl = txcontrol(txt) if txt is not None else None
        def o(s):
            if not ctl:
                mark(s)
            I_.note(s, 'exec', outcome='done', **base)
            for k in ctl or ():
                rawtx(c, s, k, conn)
            r = mk('nchanged', n)
            if info and info['kind'] == 'insert' and not info.get('or'):
                r = I(1)
            return ok(c, r)
        alts.append(((), o))
    return Alts(alts)

@m('Statement::query_row', 'Statement::query_one')
def m_sqrow(c, st):
    s_ = arg(c, st, 0)
    if s_.op != 'stmt':
        s_ = mk('stmt', mk('sqltext', s_), s_, 0)
    return do_exec(c, st, 'query_row', s_.a[0], s_.a[1], params_of(c, st, 1), c.args[2])

@m('Statement::query_map', 'Statement::query_and_then')
def m_sqmap(c, st):
    s_ = arg(c, st, 0)
    if s_.op != 'stmt':
        s_ = mk('stmt', mk('sqltext', s_), s_, 0)
    return do_exec(c, st, 'query_map', s_.a[0], s_.a[1], params_of(c, st, 1), c.args[2])

@m('Statement::execute', 'Statement::insert')
def m_sexec(c, st):
    s_ = arg(c, st, 0)
    if s_.op != 'stmt':
        s_ = mk('stmt', mk('sqltext', s_), s_, 0)
    return do_exec(c, st, 'execute', s_.a[0], s_.a[1], params_of(c, st, 1), None)

@m('Statement::exists')
def m_sexists(c, st):
    s_ = arg(c, st, 0)
    n = st.fresh()
    params = params_of(c, st, 1)
    def o(v):
        def f(s):
            c.I.note(s, 'exec', op='exists', sql=s_.a[0], conn=s_.a[1], params=params, id=n, outcome='row' if v else 'norows')
            return ok(c, B(v))
        return f
    return Alts([((), lambda s: err(c, sqlerr(c, s, n))), ((), o(True)), ((), o(False))])

@m('Connection::query_row', 'Connection::query_one')
def m_cqrow(c, st):
    return do_exec(c, st, 'query_row', sqltext(c.I, st, c.args[1]), connof(c, st), params_of(c, st, 2), c.args[3])

@m('Connection::execute')
def m_cexec(c, st):
    return do_exec(c, st, 'execute', sqltext(c.I, st, c.args[1]), connof(c, st), params_of(c, st, 2), None)

@m('Connection::execute_batch')
def m_cbatch(c, st):
    return do_exec(c, st, 'batch', sqltext(c.I, st, c.args[1]), connof(c, st), (), None) if False else batch(c, st)

def batch(c, st):
    n = st.fresh()
    d = dict(op='batch', sql=sqltext(c.I, st, c.args[1]), conn=connof(c, st), params=(), id=n)
    def o(s):
        t = d['sql'].a[0].decode('utf8', 'replace') if d['sql'].op == 'str' else None
        ctl = txcontrol(t) if t is not None else None
        if ctl is None:
            s.x[('wrote', d['conn'])] = True
        c.I.note(s, 'exec', outcome='done', **d)
        for k in ctl or ():
            rawtx(c, s, k, d['conn'])
        return ok(c, UNIT)
    def e(s):
        c.I.note(s, 'exec', outcome='err', **d)
        return err(c, sqlerr(c, s, n))
    return Alts([((), e), ((), o)])

def txcontrol(txt):
    """transaction-control statements of a batch, or None if it does anything else"""
    out = []
    for p in txt.split(';'):
        w = p.lower().split()
        if not w:
            continue
        if w[0] not in ('begin', 'commit', 'end', 'rollback') or 'to' in w:
            return None
        out.append(w)
    return out

def rawtx(c, s, w, conn):
    if w[0] == 'begin':
        beh = w[1].capitalize() if len(w) > 1 and w[1] in ('deferred', 'immediate', 'exclusive') else 'Deferred'
        s.x[('tx', conn)] = (beh, 'open')
        s.x.pop(('wrote', conn), None)
        s.x.pop(('didread', conn), None)
        c.I.note(s, 'begin', tx=conn, behavior=beh, conn=conn, loc=None, pr=None, outcome='ok', raw=True)
    else:
        k = 'rollback' if w[0] == 'rollback' else 'commit'
        s.x[('tx', conn)] = (s.x.get(('tx', conn), ('?',))[0], k)
        c.I.note(s, k, tx=conn, outcome='ok', raw=True)

@m('Connection::changes')
def m_changes(c, st):
    return mk('changes', connof(c, st), st.nev)

@m('Connection::last_insert_rowid')
def m_lir(c, st):
    return mk('rowid', connof(c, st), st.nev)

@m('Connection::open', 'Connection::open_with_flags')
def m_copen(c, st):
    p = path_of(c, st, 0)
    fl = c.args[1] if len(c.args) > 1 else None
    n = st.fresh()
    def o(s):
        cn = mk('conn', n)
        c.I.note(s, 'sqlopen', path=p, flags=fl, conn=cn, outcome='ok')
        return ok(c, cn)
    def e(s):
        c.I.note(s, 'sqlopen', path=p, flags=fl, conn=None, outcome='err')
        return err(c, sqlerr(c, s, 'open'))
    return Alts([((), e), ((), o)])

@m('OpenFlags|BitOr::bitor')
def m_oflags(c, st):
    def fl(v):
        return list(v.a[0]) if v.op == 'oflags' else [v]
    return mk('oflags', tuple(fl(c.args[0]) + fl(c.args[1])))

def pragma(kind):
    def f(c, st):
        n = st.fresh()
        name = strterm(arg(c, st, 2))
        d = dict(kind=kind, conn=connof(c, st), name=name, id=n, value=strterm(c.I.resolve(st, c.args[3])) if kind != 'query' else None)
        fn = c.args[3] if kind == 'query' else (c.args[4] if kind == 'check' else None)
        def o(s):
            c.I.note(s, 'pragma', outcome='ok', **d)
            if fn is not None:
                return Call(fn, [mk('rowref', n, 0)])
            return ok(c, UNIT)
        def e(s):
            er = sqlerr(c, s, n)
            c.I.note(s, 'pragma', outcome='err', ret=er, **d)
            return err(c, er)
        return Alts([((), e), ((), o)])
    return f

BY['Connection::pragma_update'] = pragma('update')
BY['Connection::pragma_update_and_check'] = pragma('check')
BY['Connection::pragma_query_value'] = pragma('query')

@m('Connection::set_db_config')
def m_dbconfig(c, st):
    cfg = c.args[1]
    name = cfg
    if cfg.op == 'agg' and cfg.a[0] in c.I.P.tyname:
        name = c.I.P.T[c.I.P.tyname[cfg.a[0]]]['variants'][cfg.a[1]]['n']
    d = dict(conn=connof(c, st), cfg=name, value=c.args[2])
    def o(s):
        c.I.note(s, 'dbconfig', outcome='ok', **d)
        return ok(c, mk('dbcfg', s.fresh()))
    def e(s):
        c.I.note(s, 'dbconfig', outcome='err', **d)
        return err(c, sqlerr(c, s, 'dbconfig'))
    return Alts([((), e), ((), o)])

@m('Connection::busy_timeout', 'Connection::set_prepared_statement_cache_capacity', 'Connection::flush_prepared_statement_cache', 'Connection::set_transaction_behavior')
def m_cmisc(c, st):
    c.I.note(st, 'connmisc', op=c.f['path'].split('::')[-1], args=tuple(c.args))
    n = tn(c.I, c.destty) or ''
    if 'Result' in n:
        return ok(c, UNIT)
    return UNIT

def rowof(c, st, r):
    if r.op != 'rowref':
        r = c.I.resolve(st, r)
    while r.op == 'deref':
        r = r.a[0]
    return r if r.op == 'rowref' else mk('rowref', r, 0)

def mkcol(I_, st, ex, k, i, ty):
    col = mk('col', ex, k, i, ty)
    if I_.same_file and ty and ty.startswith('std::option::Option<') and ty.endswith('FileId>'):
        return st.x.setdefault('samefile', col)
    return col

@m('Row::get', 'Row::get_ref')
def m_rowget(c, st):
    r = c.args[0]
    r2 = rowof(c, st, r)
    i = c.args[1]
    i = strterm(c.I.resolve(st, i)) if i.op == 'ref' else i
    T = c.I.P.T[c.destty]
    ty = tn(c.I, T['targs'][0]) if T['k'] == 'adt' and T['targs'] else '?'
    col = mkcol(c.I, st, r2.a[0] if r2.op == 'rowref' else r2, r2.a[1] if r2.op == 'rowref' else 0, i.a[0] if i.op in ('int', 'str') else i, ty)
    if c.I.row_get_fail:
        return Alts([((), lambda s: err(c, sqlerr(c, s, 'get'))), ((), lambda s: ok(c, col))])
    return ok(c, col)

@m('Row::get_unwrap')
def m_rowgetu(c, st):
    r2 = rowof(c, st, c.args[0])
    i = c.args[1]
    return mkcol(c.I, st, r2.a[0], r2.a[1], i.a[0], tn(c.I, c.destty))

@m('(L, M, N, O, P)|TryFrom::try_from', '(P,)|TryFrom::try_from')
def m_rowtuple(c, st):
    return row_tuple(c, st)

def row_tuple(c, st):
    r2 = rowof(c, st, c.args[0])
    T = c.I.P.T[c.destty]
    tt = c.I.P.T[T['targs'][0]]
    cols = tuple(mkcol(c.I, st, r2.a[0], r2.a[1], i, tn(c.I, x)) for i, x in enumerate(tt['ts']))
    v = mk('agg', 'tup', 0, cols)
    if c.I.row_get_fail:
        return Alts([((), lambda s: err(c, sqlerr(c, s, 'get'))), ((), lambda s: ok(c, v))])
    return ok(c, v)

@t('TryFrom', 'try_from')
def t_tryfrom(c, st):
    T = c.I.P.T[c.destty] if c.destty is not None and c.destty >= 0 else None
    if T and 'rusqlite' in (T['n']) and rowof(c, st, c.args[0]).op == 'rowref':
        return row_tuple(c, st)
    return NotImplemented

@m('MappedRows|Iterator::next', 'AndThenRows|Iterator::next')
def m_rowsnext(c, st):
    I_ = c.I
    r = c.args[0]
    v = I_.load(st, r)
    if v.op != 'it':
        return mk('opq', 'rowsnext', st.fresh())
    n, k, fn = v.a[1], v.a[2], v.a[3]
    h = mk('has', mk('rows', n), k)
    T = I_.P.T[c.destty]
    rtag = I_.P.T[T['targs'][0]]['n']
    tag = tagof(c, 'Option')
    def stop(s):
        I_.note(s, 'iterend', what='rows', id=n, k=k)
        return none(c)
    if k >= I_.elem_cap or st.elems >= I_.elem_total:
        return Alts([([(h, False)], stop)])
    def yes(s):
        s.elems += 1
        I_.store(s, r, mk('it', 'rows', n, k + 1, fn))
        I_.note(s, 'rownext', id=n, k=k)
        return Call(fn, [mk('rowref', n, k)], 'wrapsome', tag)
    def e(s):
        I_.note(s, 'rowerr', id=n, k=k)
        I_.store(s, r, mk('it', 'rows', n, k + 1, fn))
        return some(c, mk('agg', rtag, 1, (sqlerr(c, s, 'step'),)))
    return Alts([([(h, False)], stop), ([(h, True)], e), ([(h, True)], yes)])

@cont('wrapsome')
def c_wrapsome(I_, st, tag, v):
    return mk('agg', tag, 1, (v,))

@m('Result|OptionalExtension::optional')
def m_optional(c, st):
    T = c.I.P.T[c.destty]
    otag = c.I.P.T[T['targs'][0]]['n']
    nr, d = norows_term(c.I)
    def bad(s, f):
        if f is nr:
            return ok(c, mk('agg', otag, 0, ()))
        return err(c, f)
    return _split(c, st, c.args[0], 0, lambda s, f: ok(c, mk('agg', otag, 1, (f,))), bad)

@m('ValueRef::as_i64')
def m_asi64(c, st):
    v = c.args[0]
    return Alts([((), lambda s: err(c, mk('fromsqlerr', s.fresh()))), ((), lambda s: ok(c, mk('i64of', v)))])

# ------------------------------------------------------------------ vectors

@m('Vec::push')
def m_push(c, st):
    v = c.I.load(st, c.args[0])
    b, el = seqparts(v)
    c.I.store(st, c.args[0], mkseq(b, el + [c.args[1]]))
    c.I.note(st, 'push', seq=c.args[0], before=v, v=c.args[1], ty=tn(c.I, c.argtys[0]))
    return UNIT

@m('Vec::pop')
def m_pop(c, st):
    r = c.args[0]
    v = c.I.load(st, r)
    b, el = seqparts(v)
    if el:
        c.I.store(st, r, mkseq(b, el[:-1]))
        return some(c, el[-1])
    if b is None:
        return none(c)
    h = mk('has', bare(b), 'last')
    def yes(s):
        x = c.I.index(s, b, mk('idxlast'))
        c.I.store(s, r, mk('vpop', b))
        return some(c, x)
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], yes)])

@m('Vec::clear')
def m_clear(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], EMPTYVEC)
    return drop_old(c, st, v)

def drop_old(c, st, v):
    # the elements that a collection no longer holds are dropped
    T = c.I.P.T[c.argtys[0]]
    if T['k'] != 'ref' or not c.I.P.relevant(T['t']):
        return UNIT
    return drop_seq(c.I, st, [('d', c.I.alloc(st, v), T['t'])])

@m('HashMap::clear', 'HashSet::clear', 'BTreeSet::clear', 'BTreeMap::clear')
def m_mclear(c, st):
    v = c.I.load(st, c.args[0])
    c.I.note(st, 'mclear', map=c.args[0])
    c.I.store(st, c.args[0], MEMPTY)
    return drop_old(c, st, v)

@m('Vec::len', '[T]::len', 'str::len', 'String::len', 'OsStr::len')
def m_len(c, st):
    v = c.I.resolve(st, c.args[0])
    return lenof(c.I, st, v)

def lenof(I_, st, v):
    if v.op in ('mempty',):
        return I(0)
    if v.op == 'mmap':
        return v.a[2]
    if v.op == 'raw':
        return v.a[1]
    b, el = seqparts(v)
    if b is None:
        return I(len(el))
    return add(I_.len_of(st, b), I(len(el)))

@m('HashMap::len', 'HashSet::len', 'BTreeSet::len', 'BTreeMap::len')
def m_mlen2(c, st):
    v = c.I.resolve(st, c.args[0])
    return I(0) if v.op == 'mempty' else mk('len', v)

@m('Mmap::len')
def m_mmlen(c, st):
    return lenof(c.I, st, arg(c, st, 0))

@m('Vec::is_empty', '[T]::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty', 'BTreeMap::is_empty')
def m_isempty(c, st):
    v = c.I.resolve(st, c.args[0])
    if v.op == 'mempty':
        return TRUE
    if v.op == 'mins':
        return FALSE
    b, el = seqparts(v)
    if el:
        return FALSE
    if b is None:
        return TRUE
    if b.op in ('raw', 'mmap', 'sub'):
        return eq0(lenof(c.I, st, b))
    return not_(mk('has', b, 0))

@m('Vec::truncate')
def m_trunc(c, st):
    v = c.I.load(st, c.args[0])
    n = c.args[1]
    b, el = seqparts(v)
    if b is None and n.op == 'int':
        nv = mk('vec', tuple(el[:n.a[0]]))
    elif b is not None and n is lenof(c.I, st, b):
        nv = b
    elif b is not None and b.op == 'cat' and n is lenof(c.I, st, b.a[0][0]):
        nv = b.a[0][0]
    elif v.op == 'cat' and n is lenof(c.I, st, v.a[0][0]):
        nv = v.a[0][0]
    else:
        nv = mk('sub', v, I(0), n)
    c.I.store(st, c.args[0], nv)
    if b is None and nv.op == 'vec':
        return drop_old(c, st, mk('vec', tuple(el[len(nv.a[0]):])))
    c.I.note(st, 'truncate', seq=c.args[0], before=v, n=n, whole=nv.op != 'sub')
    return UNIT

@m('Vec::extend_from_slice')
def m_efs(c, st):
    v = c.I.load(st, c.args[0])
    w = c.I.resolve(st, c.args[1])
    c.I.store(st, c.args[0], cat(v, w))
    return UNIT

@m('String::push_str')
def m_pushstr(c, st):
    v = strterm(c.I.load(st, c.args[0]))
    w = strterm(c.I.resolve(st, c.args[1]))
    def parts(x):
        if x.op == 'fmt':
            return list(x.a[0])
        if x.op == 'vec' and not x.a[0]:
            return []
        return [x]
    c.I.store(st, c.args[0], mkfmt(parts(v) + parts(w)))
    return UNIT

@m('String|Add::add')
def m_stradd(c, st):
    v = strterm(c.args[0])
    w = strterm(c.I.resolve(st, c.args[1]))
    def parts(x):
        if x.op == 'fmt':
            return list(x.a[0])
        if x.op == 'vec' and not x.a[0]:
            return []
        return [x]
    return mkfmt(parts(v) + parts(w))

def cat(a, b):
    if a.op == 'vec' and not a.a[0]:
        return b
    ba, ea = seqparts(a)
    bb, eb = seqparts(b)
    if bb is None:
        return mkseq(ba, ea + eb)
    def parts(x):
        b, e = seqparts(x)
        if b is None:
            return [x]
        return (list(b.a[0]) if b.op == 'cat' else [b]) + ([mk('vec', tuple(e))] if e else [])
    return mk('cat', tuple(parts(a) + parts(b)))

@m('Vec::append')
def m_append(c, st):
    a = c.I.load(st, c.args[0])
    b = c.I.load(st, c.args[1])
    c.I.store(st, c.args[0], cat(a, b))
    c.I.store(st, c.args[1], EMPTYVEC)
    return UNIT

@m('Vec::insert')
def m_vinsert(c, st):
    v = c.I.load(st, c.args[0])
    b, el = seqparts(v)
    if b is None and c.args[1].op == 'int':
        el.insert(c.args[1].a[0], c.args[2])
        c.I.store(st, c.args[0], mk('vec', tuple(el)))
    else:
        c.I.store(st, c.args[0], mkseq(b, el + [c.args[2]]))
    c.I.note(st, 'push', seq=c.args[0], before=v, v=c.args[2], ty=tn(c.I, c.argtys[0]))
    return UNIT

@m('Vec::remove', 'Vec::swap_remove')
def m_vremove(c, st):
    v = c.I.load(st, c.args[0])
    b, el = seqparts(v)
    i = c.args[1]
    if b is None and i.op == 'int' and i.a[0] < len(el):
        x = el.pop(i.a[0])
        c.I.store(st, c.args[0], mk('vec', tuple(el)))
        return x
    c.I.store(st, c.args[0], mk('vrem', v, i))
    return c.I.index(st, v, i)

def slice_edge(which, mut):
    def f(c, st):
        r = c.args[0]
        loc, pr = c.I.deref(r)
        v = c.I.read(st, loc, pr)
        b, el = seqparts(v)
        if which == 'last' and el:
            k = len(el) - 1
            return some(c, mk('ref', loc, pr + (('i', I(k) if b is None else mk('app', k)),)))
        if which == 'first' and b is None and el:
            return some(c, mk('ref', loc, pr + (('i', I(0)),)))
        if b is None and not el:
            return none(c)
        idx = mk('idxlast') if which == 'last' else I(0)
        h = mk('has', bare(b), 'last' if which == 'last' else 0)
        return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, mk('ref', loc, pr + (('i', idx),))))])
    return f

for n in ('last', 'last_mut', 'first', 'first_mut'):
    BY['[T]::' + n] = slice_edge(n.split('_')[0], 'mut' in n)

@m('[T]::get', '[T]::get_mut', 'Vec::get')
def m_sget(c, st):
    loc, pr = c.I.deref(c.args[0])
    v = c.I.read(st, loc, pr)
    i = c.args[1]
    if i.op == 'agg':
        rg = slice_index(c.I, st, c.args[0], i)
        h = mk('inrange', v, i)
        return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, rg))])
    b, el = seqparts(v)
    if b is None and i.op == 'int':
        return some(c, mk('ref', loc, pr + (('i', i),))) if i.a[0] < len(el) else none(c)
    h = lt(i, lenof(c.I, st, v))
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, mk('ref', loc, pr + (('i', i),))))])

def slice_index(I_, st, ref, r):
    loc, pr = I_.deref(ref)
    v = I_.read(st, loc, pr)
    tag = r.a[0]
    fs = r.a[2]
    if 'RangeFull' in tag:
        return ref
    if 'RangeFrom' in tag:
        a, b = fs[0], lenof(I_, st, v)
    elif 'RangeToInclusive' in tag:
        a, b = I(0), add(fs[0], I(1))
    elif 'RangeTo' in tag:
        a, b = I(0), fs[0]
    elif 'RangeInclusive' in tag:
        a, b = fs[0], add(fs[1], I(1))
    else:
        a, b = fs[0], fs[1]
    I_.note(st, 'slice', v=v, a=a, b=b)
    return mk('ref', loc, pr + (('sub', a, b),))

@m('Vec|Index::index', '[T]|Index::index', 'Vec|IndexMut::index_mut', '[T]|IndexMut::index_mut', 'str|Index::index', 'String|Index::index', '[T; N]|Index::index')
def m_index(c, st):
    i = c.args[1]
    if i.op == 'agg':
        return slice_index(c.I, st, c.args[0], i)
    loc, pr = c.I.deref(c.args[0])
    return mk('ref', loc, pr + (('i', i),))

@m('[T]::split_at_mut', '[T]::split_at', 'str::split_at')
def m_splitat(c, st):
    loc, pr = c.I.deref(c.args[0])
    v = c.I.read(st, loc, pr)
    n = c.args[1]
    ln = lenof(c.I, st, v)
    c.I.note(st, 'slice', v=v, a=I(0), b=n)
    return mk('agg', 'tup', 0, (mk('ref', loc, pr + (('sub', I(0), n),)), mk('ref', loc, pr + (('sub', n, ln),))))

@m('[T]::contains', 'Vec::contains')
def m_contains(c, st):
    v = c.I.resolve(st, c.args[0])
    x = c.I.resolve(st, c.args[1])
    b, el = seqparts(v)
    if b is None:
        r = FALSE
        for e in el:
            r = or_(r, eqterm(c.I.resolve(st, e), x))
        return r
    return mk('contains', v, x)

@m('[T]::reverse', '[T]::sort', '[T]::sort_unstable', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort_unstable_by', '[T]::sort_unstable_by_key', 'Vec::dedup', 'Vec::shrink_to_fit', 'Vec::reserve', 'HashMap::reserve', 'HashMap::shrink_to_fit', 'String::reserve')
def m_noop(c, st):
    return UNIT

@m('HashMap::retain', 'Vec::dedup_by_key', 'HashSet::retain')
def m_retain(c, st):
    v = c.I.load(st, c.args[0])
    b, el = seqparts(v)
    c.I.note(st, 'retain', seq=c.args[0], before=v)
    if b is None and not el or v.op == 'mempty':
        return UNIT
    c.I.store(st, c.args[0], mk('retained', v, st.fresh()))
    return UNIT

@m('Vec::retain', 'Vec::retain_mut')
def m_vecretain(c, st):
    """calls the closure on each element in order, keeps those it returns true for, drops the others"""
    T = c.I.P.T[c.argtys[0]]
    while T['k'] == 'ref':
        T = c.I.P.T[T['t']]
    ety = T['targs'][0] if T['k'] == 'adt' else None
    return retain_step(c.I, st, (c.args[0], c.args[1], ety, 0, ()))

def retain_step(I_, st, data):
    seq, clo, ety, k, kept = data
    loc, pr = I_.deref(seq)
    b, el = seqparts(I_.read(st, loc, pr))
    def call(s, ref, nk):
        return Call(clo, [ref], 'retain', (seq, clo, ety, nk, kept, ref))
    def done(s):
        I_.store(s, seq, mkseq(None, [I_.load(s, r) for r in kept]))
        return UNIT
    if isinstance(k, int) and b is not None:
        h = mk('has', bare(b), k)
        def yes(s):
            s.elems += 1
            return call(s, mk('ref', loc, pr + (('i', I(k)),)), k + 1)
        def stop(s):
            I_.note(s, 'iterend', what='seq', id=bare(b), k=k)
            if el:
                return call(s, mk('ref', loc, pr + (('i', mk('app', 0)),)), ('a', 1))
            return done(s)
        if (k >= I_.elem_cap or st.elems >= I_.elem_total) and I_.decide(st, h) is not True:
            return Alts([([(h, False)], stop)])
        return Alts([([(h, False)], stop), ([(h, True)], yes)])
    a = k if isinstance(k, int) else k[1]
    if a < len(el):
        return call(st, mk('ref', loc, pr + (('i', I(a) if b is None else mk('app', a)),)), ('a', a + 1) if b is not None else a + 1)
    return done(st)

def retain_drop(I_, st, args):
    return drop_seq(I_, st, [('d', args[0], args[1].a[0])])

@cont('retain')
def c_retain(I_, st, data, v):
    seq, clo, ety, k, kept, ref = data
    def keep(s):
        return retain_step(I_, s, (seq, clo, ety, k, kept + (ref,)))
    def gone(s):
        if ety is None or not I_.P.relevant(ety):
            return retain_step(I_, s, (seq, clo, ety, k, kept))
        return Call(mk('pyfn', retain_drop), [ref, I(ety)], 'retained', (seq, clo, ety, k, kept))
    d = I_.decide(st, v)
    if d is True:
        return keep(st)
    if d is False:
        return gone(st)
    return Alts([([(v, True)], keep), ([(v, False)], gone)])

@cont('retained')
def c_retained(I_, st, data, v):
    return retain_step(I_, st, data)

@m('Vec::resize', '[T]::fill', '[T]::copy_from_slice', '[T]::swap', '[T]::clone_from_slice', '[T]::copy_within')
def m_havocseq(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], mk('havoc', v, mk('hv', st.fresh())))
    return UNIT

# ------------------------------------------------------------------ iterators over collections
# it(kind, src, pos, extra): kind 'ref' (src: ref term to a sequence), 'val' (src: sequence value),
#   'mref'/'mval'/'mkeys'/'mvals' for maps

def it_ref(c, st):
    return mk('it', 'ref', c.args[0], 0, None)

for n in ('[T]::iter', '[T]::iter_mut', 'Vec::iter', 'Vec::iter_mut'):
    BY[n] = it_ref

@m('Vec::drain')
def m_drain(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], EMPTYVEC)
    c.I.note(st, 'drain', seq=c.args[0], v=v)
    return mk('it', 'val', v, 0, None)

@m('HashMap::drain', 'HashSet::drain')
def m_mdrain(c, st):
    v = c.I.load(st, c.args[0])
    c.I.store(st, c.args[0], MEMPTY)
    return mk('it', 'mval', v, 0, tn(c.I, c.argtys[0]))

def it_map(kind, extra=None):
    def f(c, st):
        return mk('it', kind, c.args[0], 0, extra)
    return f

BY['HashMap::keys'] = it_map('mkeys')
BY['HashMap::values'] = it_map('mvals')
BY['HashMap::values_mut'] = it_map('mvals')
BY['HashMap::iter'] = it_map('mref')
BY['HashMap::iter_mut'] = it_map('mref')
BY['HashSet::iter'] = it_map('mkeys')
BY['BTreeSet::iter'] = it_map('mkeys', 'sorted')
BY['BTreeMap::iter'] = it_map('mref', 'sorted')
BY['BTreeMap::keys'] = it_map('mkeys', 'sorted')
BY['BTreeMap::values'] = it_map('mvals', 'sorted')
BY['HashMap::into_keys'] = lambda c, st: mk('it', 'mvkeys', c.args[0], 0, None)
BY['HashMap::into_values'] = lambda c, st: mk('it', 'mvvals', c.args[0], 0, None)

@t('IntoIterator', 'into_iter')
def t_intoiter(c, st):
    ty = c.argtys[0]
    T = c.I.P.T[ty]
    v = c.args[0]
    byref = False
    if T['k'] == 'ref':
        byref = True
        T = c.I.P.T[T['t']]
    p = T['path'].split('::')[-1] if T['k'] == 'adt' else T['k']
    if p in ('Vec', 'array', 'slice', 'VecDeque'):
        return mk('it', 'ref', v, 0, None) if byref else mk('it', 'val', v, 0, None)
    srt = 'sorted' if p.startswith('BTree') else None
    if p in ('HashMap', 'BTreeMap'):
        return mk('it', 'mref', v, 0, srt) if byref else mk('it', 'mval', v, 0, srt)
    if p in ('HashSet', 'BTreeSet'):
        return mk('it', 'mkeys', v, 0, srt) if byref else mk('it', 'mvkeys', v, 0, srt)
    if p == 'Option':
        return NotImplemented
    return v

def mapentries(mv):
    """(base, [(key,val)] inserted and still present, removed keys)"""
    chain = []
    removed = []
    out = []
    seen = set()
    while mv.op in ('mins', 'mrem'):
        if mv.op == 'mins':
            if mv.a[1] not in seen:
                out.append((mv.a[1], mv.a[2]))
                seen.add(mv.a[1])
        else:
            if mv.a[1] not in seen:
                removed.append(mv.a[1])
                seen.add(mv.a[1])
        mv = mv.a[0]
    out.reverse()
    return mv, out, removed

def iter_next(I_, st, ref, wrap):
    """advance collection iterator stored at ref; wrap(value or None) -> result term"""
    v = I_.load(st, ref)
    kind, src, pos, extra = v.a
    maplike = kind[0] == 'm'
    if maplike:
        mv = src if kind in ('mval', 'mvkeys', 'mvvals') else I_.resolve(st, src)
        base, ents, removed = mapentries(mv)
        if base.op == 'mempty':
            nb = 0
        else:
            nb = None
        loc = pr = None
        if kind not in ('mval', 'mvkeys', 'mvvals'):
            loc, pr = I_.deref(src)
            x = I_.read(st, loc, pr)
            n = 6
            while x.op == 'ref' and n:
                loc, pr = x.a[0], x.a[1]
                x = I_.read(st, loc, pr)
                n -= 1
        def item(key, val):
            if kind in ('mval',):
                return mk('agg', 'tup', 0, (key, val))
            if kind == 'mvkeys':
                return key
            if kind == 'mvvals':
                return val
            kr = mk('ref', mk('C', key), ())
            vr = mk('ref', loc, pr + (('mval', key),))
            if kind == 'mkeys':
                return kr
            if kind == 'mvals':
                return vr
            return mk('agg', 'tup', 0, (kr, vr))
        # inserted entries first: pos counts them as ('e', j) encoded as negative
        j = pos if isinstance(pos, int) else 0
        if extra == 'sorted' and j == 0 and len(ents) == 2 and nb == 0:
            x, y = ents[0][0], ents[1][0]
            if x.op == 'agg' and y.op == 'agg' and x.a[2] and y.a[2]:
                swap = lt(y.a[2][0], x.a[2][0])
                def ordered(s, o):
                    I_.store(s, ref, mk('it', kind, src, 0, o))
                    return iter_next(I_, s, ref, wrap)
                return Alts([([(swap, False)], lambda s: ordered(s, ('order', 0, 1))), ([(swap, True)], lambda s: ordered(s, ('order', 1, 0)))])
        if isinstance(extra, tuple) and extra and extra[0] == 'order' and len(ents) == len(extra) - 1:
            ents = [ents[q] for q in extra[1:]]
        if j < len(ents):
            I_.store(st, ref, mk('it', kind, src, j + 1, extra))
            return wrap(item(*ents[j]))
        k = j - len(ents)
        if nb == 0:
            return wrap(None)
        h = mk('has', base, k)
        def stop(s):
            I_.note(s, 'iterend', what='map', id=base, k=k)
            return wrap(None)
        if k >= I_.elem_cap or st.elems >= I_.elem_total and I_.decide(st, h) is not True:
            return Alts([([(h, False)], stop)])
        def yes(s):
            s.elems += 1
            I_.store(s, ref, mk('it', kind, src, j + 1, extra))
            key = mk('mkey', base, k)
            if key in removed:
                return wrap(None)
            return wrap(item(key, mk('mval', base, key)))
        return Alts([([(h, False)], stop), ([(h, True)], yes)])
    if kind == 'ref':
        loc, pr = I_.deref(src)
        sv = I_.read(st, loc, pr)
        n = 6
        while sv.op in ('ref', 'dyn') and n:
            loc, pr = I_.deref(sv)
            sv = I_.read(st, loc, pr)
            n -= 1
    else:
        sv = src
        loc = pr = None
    base, el = seqparts(sv)
    j = pos
    if base is None:
        if j < len(el):
            I_.store(st, ref, mk('it', kind, src, j + 1, extra))
            return wrap(mk('ref', loc, pr + (('i', I(j)),)) if kind == 'ref' else el[j])
        return wrap(None)
    # symbolic base elements, then appended ones; pos = k or ('a', j)
    if base.op == 'cat' and (isinstance(j, int) and j == 0 or isinstance(j, tuple) and j[0] == 'p'):
        return cat_next(I_, st, ref, v, base, el, ('p', 0, 0) if isinstance(j, int) else j, loc, pr, wrap)
    if isinstance(j, int):
        h = mk('has', bare(base), j)
        def yes(s):
            s.elems += 1
            I_.store(s, ref, mk('it', kind, src, j + 1, extra))
            return wrap(mk('ref', loc, pr + (('i', I(j)),)) if kind == 'ref' else I_.index(s, base, I(j)))
        def stop(s):
            I_.note(s, 'iterend', what='seq', id=bare(base), k=j)
            if el:
                I_.store(s, ref, mk('it', kind, src, ('a', 1), extra))
                return wrap(mk('ref', loc, pr + (('i', mk('app', 0)),)) if kind == 'ref' else el[0])
            return wrap(None)
        if (j >= I_.elem_cap or st.elems >= I_.elem_total) and I_.decide(st, h) is not True:
            return Alts([([(h, False)], stop)])
        return Alts([([(h, False)], stop), ([(h, True)], yes)])
    a = j[1]
    if a < len(el):
        I_.store(st, ref, mk('it', kind, src, ('a', a + 1), extra))
        return wrap(mk('ref', loc, pr + (('i', mk('app', a)),)) if kind == 'ref' else el[a])
    return wrap(None)

def cat_next(I_, st, ref, v, base, el, j, loc, pr, wrap):
    """sequences one after the other; pos = ('p', which, k)"""
    kind, src, extra = v.a[0], v.a[1], (v.a[3] if len(v.a) > 3 else None)
    _, p, k = j
    parts = base.a[0]
    def got(s, p, k, x):
        I_.store(s, ref, mk('it', kind, src, ('p', p, k + 1), extra))
        return wrap(mk('ref', loc, pr + (('i', mk('part', p, k)),)) if kind == 'ref' else x)
    while p < len(parts):
        b, known = seqparts(parts[p])
        if b is None:
            if k < len(known):
                return got(st, p, k, known[k])
            p, k = p + 1, 0
            continue
        if known:
            break
        h = mk('has', bare(b), k)
        def yes(s):
            s.elems += 1
            return got(s, p, k, I_.index(s, b, I(k)))
        def stop(s):
            I_.note(s, 'iterend', what='seq', id=bare(b), k=k)
            I_.store(s, ref, mk('it', kind, src, ('p', p + 1, 0), extra))
            return iter_next(I_, s, ref, wrap)
        if (k >= I_.elem_cap or st.elems >= I_.elem_total) and I_.decide(st, h) is not True:
            return Alts([([(h, False)], stop)])
        return Alts([([(h, False)], stop), ([(h, True)], yes)])
    if p < len(parts):
        I_.store(st, ref, mk('it', kind, src, ('p', len(parts), 0), extra))
        return wrap(mk('opq', 'catnext', st.fresh()))
    I_.note(st, 'iterend', what='seq', id=bare(base), k=k)
    if el:
        I_.store(st, ref, mk('it', kind, src, ('a', 1), extra))
        return wrap(mk('ref', loc, pr + (('i', mk('app', 0)),)) if kind == 'ref' else el[0])
    I_.store(st, ref, mk('it', kind, src, ('p', p, 0), extra))
    return wrap(None)

@t('Iterator', 'next')
def t_next(c, st):
    tag = tagof(c, 'Option')
    v = c.I.load(st, c.args[0])
    if v.op != 'it':
        # unknown iterator: yields unknown elements
        h = mk('has', v, st.nev)
        if st.elems >= c.I.elem_total:
            return none(c)
        def yes(s):
            s.elems += 1
            return some(c, mk('opq', 'next', s.fresh()))
        return Alts([((), lambda s: none(c)), ((), yes)])
    if v.a[0] == 'rows':
        return m_rowsnext(c, st)
    if v.a[0] == 'rd':
        return m_rdnext(c, st)
    return iter_next(c.I, st, c.args[0], lambda x: mk('agg', tag, 0, ()) if x is None else mk('agg', tag, 1, (x,)))

@t('DoubleEndedIterator', 'next_back')
def t_nextback(c, st):
    tag = tagof(c, 'Option')
    v = c.I.load(st, c.args[0])
    if v.op == 'it' and v.a[0] in ('ref', 'val') and isinstance(v.a[2], int):
        kind, src, pos, extra = v.a
        if kind == 'ref':
            loc, pr = c.I.deref(src)
            sv = c.I.read(st, loc, pr)
        else:
            sv = src
        taken = extra[1] if isinstance(extra, tuple) and extra and extra[0] == 'back' else 0
        b, el = seqparts(sv)
        if b is None:
            idx = len(el) - 1 - taken
            if idx < pos:
                return none(c)
            c.I.store(st, c.args[0], mk('it', kind, src, pos, ('back', taken + 1)))
            return some(c, mk('ref', loc, pr + (('i', I(idx)),)) if kind == 'ref' else el[idx])
        h = mk('hasback', b, taken)
        idx = add(add(lenof(c.I, st, sv), I(-1)), I(-taken))
        def yes(s):
            s.elems += 1
            c.I.store(s, c.args[0], mk('it', kind, src, pos, ('back', taken + 1)))
            return some(c, mk('ref', loc, pr + (('i', idx),)) if kind == 'ref' else c.I.index(s, sv, idx))
        if taken >= c.I.elem_cap or st.elems >= c.I.elem_total:
            return Alts([([(h, False)], lambda s: none(c))])
        return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], yes)])
    if st.elems >= c.I.elem_total:
        return none(c)
    def yes(s):
        s.elems += 1
        return some(c, mk('opq', 'next_back', s.fresh()))
    return Alts([((), lambda s: none(c)), ((), yes)])

@t('Iterator', 'size_hint')
def t_sizehint(c, st):
    return mk('opq', 'size_hint', st.fresh())

# -- collect / extend / from_iter : loop over next of the iterator's type

def call_next(I_, st, itref, ity, contname, data):
    """request next() on an iterator of type ity stored at itref"""
    T = I_.P.T[ity]
    n = T['n']
    fid = I_.P.next_impl.get(n)
    if fid is not None:
        return Call(mk('fnid', fid), [itref], contname, data)
    while T['k'] == 'ref':
        # &mut I
        itref = I_.load(st, itref)
        ity = T['t']
        T = I_.P.T[ity]
        n = T['n']
        fid = I_.P.next_impl.get(n)
        if fid is not None:
            return Call(mk('fnid', fid), [itref], contname, data)
    return Call(mk('pyfn', py_next(ity)), [itref], contname, data)

_pyn = {}

def py_next(ity):
    f = _pyn.get(ity)
    if f is None:
        def f(I_, st, args):
            v = I_.load(st, args[0])
            if v.op == 'it' and v.a[0] in ('rows', 'rd'):
                c = Ctx.__new__(Ctx)
                c.I = I_
                c.P = I_.P
                c.args = args
                c.destty = item_opt_type(I_, ity)
                c.argtys = [None]
                c.f = {'path': 'next'}
                c.callee = None
                return (m_rowsnext if v.a[0] == 'rows' else m_rdnext)(c, st)
            if v.op == 'it':
                return iter_next(I_, st, args[0], lambda x: mk('agg', 'std::option::Option<?>', 0, ()) if x is None else mk('agg', 'std::option::Option<?>', 1, (x,)))
            if st.elems >= I_.elem_total:
                return mk('agg', 'std::option::Option<?>', 0, ())
            def yes(s):
                s.elems += 1
                return mk('agg', 'std::option::Option<?>', 1, (mk('opq', 'next', s.fresh()),))
            return Alts([((), lambda s: mk('agg', 'std::option::Option<?>', 0, ())), ((), yes)])
        _pyn[ity] = f
    return f

def item_opt_type(I_, ity):
    # find Option<Result<..>> types used as a next() destination for rows: any Option<Result<T, rusqlite::Error>>
    T = I_.P.T[ity]
    n = T['n']
    if 'MappedRows' in n:
        for nm, ty in I_.P.tyname.items():
            if nm.startswith('std::option::Option<std::result::Result<') and nm.endswith('rusqlite::Error>>'):
                return ty
    for nm, ty in I_.P.tyname.items():
        if nm.startswith('std::option::Option<std::result::Result<'):
            return ty
    return next(iter(I_.P.tyname.values()))

def start_collect(c, st, itv, ity, dest, finish):
    """dest: 'vec' | 'map' | 'set' ; finish: function(I,st,collected)->term stored by key"""
    itref = c.I.alloc(st, itv)
    acc = c.I.alloc(st, EMPTYVEC if dest in ('vec', 'str') else MEMPTY)
    return call_next(c.I, st, itref, ity, 'collect', (itref, ity, acc, dest, finish))

@cont('collect')
def c_collect(I_, st, data, v):
    itref, ity, acc, dest, finish = data
    def fin(s, val):
        return FINISH[finish[0]](I_, s, val, finish, acc)
    def more(s, x):
        if finish[0] in ('res', 'opt'):
            okidx = 0 if finish[0] == 'res' else 1
            if x.op == 'agg':
                if x.a[1] != okidx:
                    return mk('agg', finish[1], 1 - okidx, x.a[2] if finish[0] == 'res' else ())
                x = x.a[2][0]
                return step(s, x)
            d = mk('discr', x)
            I_.discr_dom.setdefault(d, (0, 1))
            return Alts([([(mk('isd', x, 1 - okidx), True)], lambda s2: mk('agg', finish[1], 1 - okidx, (mk('fld', mk('as', x, 1 - okidx), 0),) if finish[0] == 'res' else ())),
                         ([(mk('isd', x, okidx), True)], lambda s2: step(s2, mk('fld', mk('as', x, okidx), 0)))])
        return step(s, x)
    def step(s, x):
        a = I_.load(s, acc)
        if dest in ('vec', 'str'):
            b, el = seqparts(a)
            if len(el) >= 24:
                return Diverge(('cut', 'collect'))
            I_.store(s, acc, mkseq(b, el + [x]))
        elif dest == 'set':
            from .interp import map_set
            I_.store(s, acc, map_set(a, x, UNIT))
        elif dest == 'map':
            from .interp import map_set
            k_ = x.a[2][0] if x.op == 'agg' else mk('fld', x, 0)
            v_ = x.a[2][1] if x.op == 'agg' else mk('fld', x, 1)
            I_.store(s, acc, map_set(a, k_, v_))
        return call_next(I_, s, itref, ity, 'collect', data)
    if v.op == 'agg':
        if v.a[1] == 0:
            return fin(st, I_.load(st, acc))
        return more(st, v.a[2][0])
    d = mk('discr', v)
    I_.discr_dom.setdefault(d, (0, 1))
    if st.elems >= I_.elem_total:
        return fin(st, I_.load(st, acc))
    def y(s):
        s.elems += 1
        return more(s, mk('fld', mk('as', v, 1), 0))
    return Alts([([(mk('isd', v, 0), True)], lambda s: fin(s, I_.load(s, acc))), ([(mk('isd', v, 1), True)], y)])

def fin_plain(I_, st, val, f, acc):
    return val

def fin_res(I_, st, val, f, acc):
    return mk('agg', f[1], 0, (val,))

def fin_opt(I_, st, val, f, acc):
    return mk('agg', f[1], 1, (val,))

def fin_ext(I_, st, val, f, acc):
    r = f[1]
    old = I_.load(st, r)
    if val.op in ('vec', 'vapp'):
        if old.op in ('mempty', 'mins', 'mrem'):
            from .interp import map_set
            for x in seqparts(val)[1]:
                old = map_set(old, x, UNIT)
            I_.store(st, r, old)
        else:
            I_.store(st, r, cat(old, val))
    else:
        base, ents, removed = mapentries(val)
        from .interp import map_set
        for k_, v_ in ents:
            old = map_set(old, k_, v_)
        I_.store(st, r, old)
    return UNIT

def fin_fold(I_, st, val, f, acc):
    return val

FINISH = {'plain': fin_plain, 'res': fin_res, 'opt': fin_opt, 'ext': fin_ext}

def dest_kind(T):
    p = T['path'].split('::')[-1] if T['k'] == 'adt' else ''
    if p in ('Vec', 'VecDeque', 'Box', 'BinaryHeap'):
        return 'vec'
    if p in ('HashSet', 'BTreeSet'):
        return 'set'
    if p in ('HashMap', 'BTreeMap'):
        return 'map'
    if p in ('String', 'PathBuf', 'OsString'):
        return 'str'
    return None

def collect_into(c, st, itv, ity, destty):
    P = c.I.P
    T = P.T[destty]
    k = dest_kind(T)
    if k:
        # by-value whole-sequence fast path keeps unbounded symbolic sequences intact
        if itv.op == 'it' and itv.a[0] == 'val' and itv.a[2] == 0 and k == 'vec' and dest_kind_of_iter(P, ity):
            return itv.a[1]
        return start_collect(c, st, itv, ity, k, ('plain',))
    if T['k'] == 'adt' and T['path'] == 'std::result::Result':
        k = dest_kind(P.T[T['targs'][0]])
        if k is None and P.T[T['targs'][0]]['n'] == '()':
            k = 'vec'
        if k:
            return start_collect(c, st, itv, ity, k, ('res', T['n']))
    if T['k'] == 'adt' and T['path'] == 'std::option::Option':
        k = dest_kind(P.T[T['targs'][0]])
        if k:
            return start_collect(c, st, itv, ity, k, ('opt', T['n']))
    return NotImplemented

def dest_kind_of_iter(P, ity):
    return 'IntoIter<' in P.T[ity]['n'] and P.T[ity]['n'].startswith('std::vec::')

@tp('Iterator', 'collect')
def tp_collect(c, st):
    return collect_into(c, st, c.args[0], c.argtys[0], c.destty)

@tp('FromIterator', 'from_iter')
def tp_fromiter(c, st):
    if c.args[0].op == 'it' or c.I.P.next_impl.get(tn(c.I, c.argtys[0])):
        return collect_into(c, st, c.args[0], c.argtys[0], c.destty)
    T = c.I.P.T[c.argtys[0]]
    if T['k'] == 'array' or T['k'] == 'adt' and dest_kind(T) == 'vec':
        return collect_into(c, st, mk('it', 'val', c.args[0], 0, None), c.argtys[0], c.destty)
    return NotImplemented

@tp('Extend', 'extend')
def tp_extend(c, st):
    ity = c.argtys[1]
    T = c.I.P.T[ity]
    v = c.args[1]
    k = dest_kind(c.I.P.T[c.I.P.T[c.argtys[0]]['t']]) if c.I.P.T[c.argtys[0]]['k'] == 'ref' else 'vec'
    if k is None:
        return NotImplemented
    if T['k'] == 'adt' and dest_kind(T) == 'vec' or T['k'] == 'array':
        if k == 'vec':
            old = c.I.load(st, c.args[0])
            c.I.note(st, 'extend', seq=c.args[0], before=old, v=v)
            c.I.store(st, c.args[0], cat(old, v))
            return UNIT
        return start_collect(c, st, mk('it', 'val', v, 0, None), ity, 'vec', ('ext', c.args[0]))
    if T['k'] == 'ref' and dest_kind(c.I.P.T[T['t']]) == 'vec':
        old = c.I.load(st, c.args[0])
        c.I.store(st, c.args[0], cat(old, c.I.load(st, v)))
        return UNIT
    if T['k'] == 'adt' and dest_kind(T) in ('set', 'map'):
        return start_collect(c, st, mk('it', 'mvkeys' if dest_kind(T) == 'set' else 'mval', v, 0, None), ity, 'vec' if dest_kind(T) == 'set' else 'map', ('ext', c.args[0]))
    if T['k'] == 'adt' and T['path'] == 'std::option::Option':
        return extend_option(c, st, v, k)
    return start_collect(c, st, v, ity, 'vec', ('ext', c.args[0]))

def extend_option(c, st, v, k):
    # what pushing (inserting) the value would do, if there is one
    I_, r, ty = c.I, c.args[0], c.argtys[0]
    if k not in ('vec', 'set', 'map'):
        return NotImplemented
    def put(s, x):
        old = I_.load(s, r)
        if k == 'vec':
            b, el = seqparts(old)
            I_.store(s, r, mkseq(b, el + [x]))
            I_.note(s, 'push', seq=r, before=old, v=x, ty=tn(I_, ty))
            return UNIT
        from .interp import map_set
        if k == 'map':
            key = x.a[2][0] if x.op == 'agg' else mk('fld', x, 0)
            val = x.a[2][1] if x.op == 'agg' else mk('fld', x, 1)
            I_.note(s, 'minsert', loc=r.a[0], pr=r.a[1], key=key, v=val, ty=tn(I_, ty))
        else:
            key, val = x, UNIT
            I_.note(s, 'sinsert', loc=r.a[0], pr=r.a[1], key=key, ty=tn(I_, ty))
        I_.store(s, r, map_set(old, key, val))
        return UNIT
    if v.op == 'agg':
        return put(st, v.a[2][0]) if v.a[1] == 1 else UNIT
    I_.discr_dom.setdefault(mk('discr', v), (0, 1))
    return Alts([([(mk('isd', v, 0), True)], lambda s: UNIT),
                 ([(mk('isd', v, 1), True)], lambda s: put(s, mk('fld', mk('as', v, 1), 0)))])

@m('Rng::sample_iter', 'rng::sample_iter')
def m_sampleiter(c, st):
    return mk('sampler', st.fresh())

@m('Cursor::new', 'Cursor::new_pos')
def m_cursor(c, st):
    return mk('cursor', *c.args)

# ------------------------------------------------------------------ maps

def mapref(c, st, i=0):
    r = c.args[i]
    loc, pr = c.I.deref(r)
    v = c.I.read(st, loc, pr)
    n = 6
    while v.op == 'ref' and n:
        loc, pr = v.a[0], v.a[1]
        v = c.I.read(st, loc, pr)
        n -= 1
    return loc, pr, v

def mlookup(mv, key):
    """'yes' value | 'no' | base for undecided"""
    while mv.op in ('mins', 'mrem'):
        if mv.a[1] is key:
            return ('yes', mv.a[2]) if mv.op == 'mins' else ('no', None)
        mv = mv.a[0]
    if mv.op == 'mempty':
        return ('no', None)
    if key.op == 'mkey' and key.a[0] is mv:
        return ('yes', mk('mval', mv, key))
    return ('base', mv)

def m_mapget(mut):
    def f(c, st):
        loc, pr, mv = mapref(c, st)
        key = c.I.resolve(st, c.args[1])
        k, v = mlookup(mv, key)
        ref = mk('ref', loc, pr + (('mval', key),))
        c.I.note(st, 'mget', loc=loc, pr=pr, key=key, map=mv)
        if k == 'yes':
            return some(c, ref)
        if k == 'no':
            return none(c)
        h = mk('mhas', v, key)
        return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, ref))])
    return f

BY['HashMap::get'] = m_mapget(False)
BY['HashMap::get_mut'] = m_mapget(True)
BY['BTreeMap::get'] = m_mapget(False)

@m('HashMap::contains_key', 'HashSet::contains', 'BTreeSet::contains', 'BTreeMap::contains_key')
def m_mapcontains(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    if k == 'yes':
        return TRUE
    if k == 'no':
        return FALSE
    return mk('mhas', v, key)

@m('HashMap::insert', 'BTreeMap::insert')
def m_mapinsert(c, st):
    loc, pr, mv = mapref(c, st)
    key, val = c.args[1], c.args[2]
    k, v = mlookup(mv, key)
    c.I.note(st, 'minsert', loc=loc, pr=pr, key=key, v=val, ty=tn(c.I, c.argtys[0]))
    c.I.write(st, loc, pr, mk('mins', mv, key, val))
    if k == 'yes':
        return some(c, v)
    if k == 'no':
        return none(c)
    h = mk('mhas', v, key)
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, mk('mval', v, key)))])

@m('HashSet::insert', 'BTreeSet::insert')
def m_setinsert(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.args[1]
    k, v = mlookup(mv, key)
    c.I.note(st, 'sinsert', loc=loc, pr=pr, key=key, ty=tn(c.I, c.argtys[0]))
    if k != 'yes':
        c.I.write(st, loc, pr, mk('mins', mv, key, UNIT))
    if k == 'yes':
        return FALSE
    if k == 'no':
        return TRUE
    return not_(mk('mhas', v, key))

@m('HashMap::remove', 'HashSet::remove', 'BTreeSet::remove', 'BTreeMap::remove', 'HashSet::take', 'HashMap::remove_entry')
def m_mapremove(c, st):
    loc, pr, mv = mapref(c, st)
    key = c.I.resolve(st, c.args[1])
    k, v = mlookup(mv, key)
    isset = 'Set' in c.f['path'].split('::')[-2] or 'Set' in c.f['path']
    c.I.note(st, 'mremove', loc=loc, pr=pr, key=key, map=mv, ty=tn(c.I, c.argtys[0]))
    if k == 'no':
        return FALSE if isset else none(c)
    c.I.write(st, loc, pr, mk('mrem', mv, key))
    if k == 'yes':
        return TRUE if isset else some(c, v)
    h = mk('mhas', v, key)
    if isset:
        return h
    return Alts([([(h, False)], lambda s: none(c)), ([(h, True)], lambda s: some(c, mk('mval', v, key)))])

@m('HashMap::entry', 'BTreeMap::entry')
def m_entry(c, st):
    loc, pr, mv = mapref(c, st)
    return mk('entry', mk('ref', loc, pr), c.args[1])

def entry_or(c, st, mkdefault):
    e = c.args[0]
    if e.op != 'entry':
        return mk('opq', 'entry', st.fresh())
    r, key = e.a
    mv = c.I.load(st, r)
    k, v = mlookup(mv, key)
    ref = mk('ref', r.a[0], r.a[1] + (('mval', key),))
    def ins(s):
        d = mkdefault(s)
        if not isinstance(d, Term):
            return d
        mv2 = c.I.load(s, r)
        c.I.store(s, r, mk('mins', mv2, key, d))
        c.I.note(s, 'minsert', loc=r.a[0], pr=r.a[1], key=key, v=d, ty='entry')
        return ref
    if k == 'yes':
        return ref
    if k == 'no':
        return ins(st)
    h = mk('mhas', v, key)
    return Alts([([(h, False)], ins), ([(h, True)], lambda s: ref)])

@m('Entry::or_default')
def m_ordefault(c, st):
    T = c.I.P.T[c.destty]
    return entry_or(c, st, lambda s: default_value(c.I, s, T['t']))

@m('Entry::or_insert')
def m_orinsert(c, st):
    return entry_or(c, st, lambda s: c.args[1])

@m('Entry::or_insert_with')
def m_orinsertwith(c, st):
    e = c.args[0]
    def d(s):
        return Call(c.args[1], [], 'entryins', e)
    return entry_or(c, st, d)

@cont('entryins')
def c_entryins(I_, st, e, v):
    r, key = e.a
    I_.store(st, r, mk('mins', I_.load(st, r), key, v))
    I_.note(st, 'minsert', loc=r.a[0], pr=r.a[1], key=key, v=v, ty='entry')
    return mk('ref', r.a[0], r.a[1] + (('mval', key),))

# ------------------------------------------------------------------ clap (CLI)

@m('Parser::parse')
def m_clap(c, st):
    return mk('arg', 'cli')

@m('env_logger::init', 'env_logger::try_init')
def m_logger(c, st):
    n = tn(c.I, c.destty) or ''
    if 'Result' in n:
        return Alts([((), lambda s: err(c, mk('loggererr', s.fresh()))), ((), lambda s: ok(c, UNIT))])
    return UNIT

# ------------------------------------------------------------------ drops

def drop_seq(I_, st, items):
    """process a list of ('d', ref, ty) drops in order"""
    items = list(items)
    P = I_.P
    while items:
        it = items.pop(0)
        kind, ref, ty = it
        if kind == 'end':
            continue
        if ty is None or ty < 0 or not P.relevant(ty):
            continue
        T = P.T[ty]
        k = T['k']
        loc, pr = I_.deref(ref) if ref.op in ('ref', 'dyn') else (mk('O', ref), ())
        v = I_.read(st, loc, pr)
        if v.op == 'undef':
            continue
        if k == 'tuple':
            items = [('d', mk('ref', loc, pr + (('f', i, ty, None),)), x) for i, x in enumerate(T['ts'])] + items
            continue
        if k == 'closure':
            items = [('d', mk('ref', loc, pr + (('f', i, ty, None),)), x) for i, x in enumerate(T['ups'])] + items
            continue
        if k in ('array', 'slice'):
            b, el = seqparts(v)
            if b is None:
                items = [('d', mk('ref', loc, pr + (('i', I(i)),)), T['t']) for i in range(len(el))] + items
            continue
        if k != 'adt':
            continue
        path = T['path']
        if path in ('std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard'):
            if v.op == 'guard':
                I_.note(st, 'unlock', id=v.a[0], ty=T['n'])
            else:
                I_.note(st, 'unlock', id=v, ty=T['n'])
            continue
        if path == 'std::fs::File':
            I_.note(st, 'close', file=v)
            continue
        if path in ('rusqlite::Transaction', 'rusqlite::Savepoint'):
            info = st.x.get(('tx', v))
            if info is None or info[1] == 'open':
                I_.note(st, 'txdrop', tx=v, wrote=bool(st.x.get(('wrote', v))), dropb=st.x.get(('dropb', v)))
                if info:
                    st.x[('tx', v)] = (info[0], 'dropped')
            continue
        if path.startswith('std::sync::mpsc::'):
            I_.note(st, 'chandrop', ch=v)
            continue
        if path.startswith('tempfile::'):
            I_.note(st, 'tempdrop', v=v)
            continue
        if path in ('std::boxed::Box',):
            if v.op in ('ref', 'dyn'):
                items = [('d', v, T['targs'][0])] + items
            else:
                items = [('d', mk('ref', mk('O', v), ()), T['targs'][0])] + items
            continue
        if path in ('std::sync::Arc', 'std::rc::Rc'):
            key = ('rc', v.a[0]) if v.op == 'ref' else None
            if key in st.x:
                st.x[key] -= 1
                if st.x[key] == 0:
                    items = [('d', v, T['targs'][0])] + items
            else:
                I_.note(st, 'arcdrop', v=v, ty=T['n'])
            continue
        if path in ('std::vec::Vec',):
            b, el = seqparts(v)
            n = 0 if b is None else None
            items = [('d', mk('ref', loc, pr + (('i', I(i) if b is None else mk('app', i)),)), T['targs'][0]) for i in range(len(el))] + items
            if b is not None:
                I_.note(st, 'dropseq', v=b, ty=P.T[T['targs'][0]]['n'])
            continue
        if path.startswith('std::collections::'):
            base, ents, rem = mapentries(v)
            if base.op != 'mempty':
                I_.note(st, 'dropmap', v=base, ty=T['n'])
            vt = T['targs'][1] if 'Map' in path else None
            if vt is not None:
                items = [('d', mk('ref', loc, pr + (('mval', k_),)), vt) for k_, _ in ents] + items
            continue
        if path in ('std::sync::Mutex', 'std::sync::RwLock', 'std::cell::RefCell', 'std::cell::Cell', 'std::cell::UnsafeCell'):
            items = [('d', mk('ref', loc, pr + (('inner',),)), T['targs'][0])] + items
            continue
        if path in ('std::vec::IntoIter', 'std::vec::Drain', 'std::collections::hash_map::IntoIter'):
            if v.op == 'it' and isinstance(v.a[1], Term) and v.a[0] == 'val':
                b, el = seqparts(v.a[1])
                rest = []
                if b is None:
                    rest = el[v.a[2]:] if isinstance(v.a[2], int) else []
                elif isinstance(v.a[2], tuple):
                    rest = el[v.a[2][1]:]
                if b is not None and isinstance(v.a[2], int):
                    I_.note(st, 'dropseq', v=b, ty=P.T[T['targs'][0]]['n'], **{'from': v.a[2]})
                    rest = el
                items = [('d', I_.alloc(st, x), T['targs'][0]) for x in rest] + items
            continue
        fields = []
        if T['kind'] == 'enum':
            if v.op == 'agg':
                var = v.a[1]
                for i, (fn, ft) in enumerate(T['variants'][var]['f']):
                    fields.append(('d', mk('ref', loc, pr + (('f', i, ty, var),)), ft))
            else:
                d = mk('discr', v)
                kn = st.facts.get(d)
                if isinstance(kn, int) and not isinstance(kn, bool):
                    for vi, var in enumerate(T['variants']):
                        if int(var['d']) == kn:
                            for i, (fn, ft) in enumerate(var['f']):
                                fields.append(('d', mk('ref', loc, pr + (('f', i, ty, vi),)), ft))
                else:
                    I_.note(st, 'dropsym', v=v, ty=T['n'])
        elif T['kind'] == 'struct' and (T.get('local') or path.startswith('std::pin')):
            if T['variants']:
                for i, (fn, ft) in enumerate(T['variants'][0]['f']):
                    fields.append(('d', mk('ref', loc, pr + (('f', i, ty, None),)), ft))
            if path.startswith('std::pin'):
                fields = [('d', ref, T['targs'][0])]
        elif path.startswith('itertools') or path.startswith('std::iter') or path.startswith('std::'):
            for x in T['targs']:
                pass
        dr = T.get('drop', -1)
        if dr is not None and dr >= 0 and 'blocks' in P.F[dr]:
            return Call(mk('fnid', dr), [mk('ref', loc, pr)], 'dropseq', tuple(fields + items))
        items = fields + items
    return UNIT

@cont('dropseq')
def c_dropseq(I_, st, items, v):
    return drop_seq(I_, st, items)

@m('mem::drop')
def m_drop(c, st):
    ty = c.argtys[0]
    if ty is None or not c.I.P.relevant(ty):
        return UNIT
    return drop_seq(c.I, st, [('d', c.I.alloc(st, c.args[0]), ty)])

@m('MaybeUninit::new', 'MaybeUninit::assume_init', 'ManuallyDrop::into_inner')
def m_md(c, st):
    return c.args[0]

@m('ManuallyDrop::new')
def m_mdnew(c, st):
    c.I.note(st, 'forget', v=c.args[0])
    return c.args[0]

@m('ptr::drop_in_place', '*mut T::drop_in_place', '*mut T::read_and_drop')
def m_dip(c, st):
    c.I.note(st, 'dropinplace', p=c.args[0])
    return UNIT

@m('Option::insert')
def m_optinsert(c, st):
    return NotImplemented

@m('NaiveDateTime::timestamp', 'NaiveDateTime::timestamp_subsec_nanos', 'NaiveDateTime::timestamp_millis')
def m_chrono(c, st):
    v = arg(c, st, 0)
    return mk('chrono', c.f['path'].split('::')[-1], v)

@m('intrinsics::integer_min', 'intrinsics::integer_max')
def m_intmm(c, st):
    a, b = c.args
    mn = c.f['path'].endswith('min')
    if a is b:
        return a
    return Alts([([(lt(a, b), True)], lambda s: a if mn else b), ([(lt(a, b), False)], lambda s: b if mn else a)])

@m('take_mut::take')
def m_takemut(c, st):
    v = c.I.load(st, c.args[0])
    return Call(c.args[1], [v], 'takemut', c.args[0])

@cont('takemut')
def c_takemut(I_, st, ref, v):
    I_.store(st, ref, v)
    return UNIT

from . import models2
