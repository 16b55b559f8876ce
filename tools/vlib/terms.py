"""Interned provenance terms and linear-arithmetic normal forms.

A term describes where a value came from; it is never a run-time value.
"""

class Term:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t

TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('agg', 'tup', 0, ())

def B(x):
    return TRUE if x else FALSE

def I(n):
    return mk('int', n)

def S(b):
    if isinstance(b, str):
        b = b.encode()
    return mk('str', bytes(b))

def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 7:
        return '…'
    if t.op == 'int':
        return str(t.a[0])
    if t.op == 'bool':
        return str(t.a[0]).lower()
    if t.op == 'str':
        return repr(t.a[0])[1:]
    if t.op == 'lin':
        return '(' + '+'.join(([str(t.a[0])] if t.a[0] else []) + [('' if k == 1 else str(k) + '*') + show(x, d + 1) for x, k in t.a[1]]) + ')'
    if t.op == 'agg':
        return '%s#%s{%s}' % (t.a[0], t.a[1], ','.join(show(x, d + 1) for x in t.a[2]))
    if t.op in ('fld',):
        return '%s.%s' % (show(t.a[0], d + 1), t.a[1])
    if t.op == 'as':
        return '%s@%s' % (show(t.a[0], d + 1), t.a[1])
    return t.op + '(' + ','.join(show(x, d + 1) for x in t.a) + ')'

# ---------------------------------------------------------------- linear terms

def lin_of(t):
    """-> (const, {atom: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mklin(c, d):
    it = [(a, k) for a, k in d.items() if k]
    if not it:
        return I(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda x: x[0].id)
    return mk('lin', c, tuple(it))

def is_num_const(t):
    return t.op == 'int'

def add(a, b, s=1):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(c1 + s * c2, d)

def sub(a, b):
    return add(a, b, -1)

def neg(a):
    return add(I(0), a, -1)

def scale(a, n):
    c, d = lin_of(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})

def mul(a, b):
    if a.op == 'int':
        return scale(b, a.a[0])
    if b.op == 'int':
        return scale(a, b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'div' and x.a[1] is y:
            return mk('floor', x.a[0], y)
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('mul', x, y)

def div(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
    if b.op == 'int' and b.a[0] == 1:
        return a
    if a.op == 'floor' and a.a[1] is b:
        return div(a.a[0], b)
    return mk('div', a, b)

def rem(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return I(r if a.a[0] >= 0 else -r)
    # exact multiples
    if a.op == 'floor' and a.a[1] is b:
        return I(0)
    return sub(a, floor(a, b))

def floor(a, m):
    if a.op == 'floor' and a.a[1] is m:
        return a
    c, d = lin_of(a)
    # multiples of m move out: floor(x + floor(y,m), m) = floor(x,m) + floor(y,m)
    out, rest = {}, {}
    for k, v in d.items():
        if (k.op == 'floor' and k.a[1] is m) or k is m or (k.op == 'mul' and m in k.a):
            out[k] = v
        else:
            rest[k] = v
    if out:
        r = mklin(c, rest)
        if r is I(0):
            return mklin(0, out)
        if r.op == 'int' and r.a[0] == -1 and False:
            pass
        return add(mklin(0, out), mk('floor', r, m))
    if a.op == 'int' and m.op == 'int' and m.a[0]:
        return I(a.a[0] // m.a[0] * m.a[0])
    return mk('floor', a, m)

def ceil(a, m):
    return floor(add(add(a, m), I(-1)), m)

# ---------------------------------------------------------------- booleans

def not_(t):
    if t.op == 'bool':
        return B(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)

def lt0(d):
    """d < 0 over the integers, canonical up to complement."""
    c, m = lin_of(d)
    if not m:
        return B(c < 0)
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0:
        # d<0  <=>  not (d>=0)  <=>  not(-d-1 < 0)
        return mk('not', mk('lt0', add(neg(d), I(-1))))
    return mk('lt0', d)

def lt(a, b):
    return lt0(sub(a, b))

def le(a, b):
    return not_(lt(b, a))

def eq0(d):
    c, m = lin_of(d)
    if not m:
        return B(c == 0)
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0:
        d = neg(d)
    return mk('eq0', d)

def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('and', x, y)

def or_(a, b):
    return not_(and_(not_(a), not_(b)))

NUMOPS = {'int', 'lin', 'floor', 'div', 'mul', 'rem', 'len', 'char'}

def numeric(t):
    return t.op in ('int', 'lin', 'floor', 'div', 'mul', 'rem', 'len')

def eq(a, b):
    """structural equality as a boolean term"""
    if a is b:
        return TRUE
    if numeric(a) or numeric(b):
        if a.op in ('agg', 'str', 'bool') or b.op in ('agg', 'str', 'bool'):
            return FALSE if not (a.op == 'bool' or b.op == 'bool') else mk('eqv', a, b)
        return eq0(sub(a, b))
    if a.op == 'bool':
        return b if a.a[0] else not_(b)
    if b.op == 'bool':
        return a if b.a[0] else not_(a)
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'agg' and b.op == 'agg' and len(a.a[2]) == len(b.a[2]) or a.op == 'agg' and b.op == 'agg' and a.a[1] != b.a[1]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            r = and_(r, eq(x, y))
        return r
    if a.op == 'agg' and b.op != 'agg':
        a, b = b, a
    if b.op == 'agg' and a.op != 'agg':
        # symbolic against known shape
        tag, v, fs = b.a
        r = TRUE
        if tag != 'tup' and isinstance(v, int) and b_is_enum(tag):
            r = mk('isd', a, DISCR(tag, v))
            base = mk('as', a, v)
        else:
            base = a
        for i, f in enumerate(fs):
            r = and_(r, eq(fld(base, i), f))
        return r
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('eqv', x, y)

DISCR = lambda tag, v: v

def b_is_enum(tag):
    return False

def fld(v, i):
    if v.op == 'agg':
        fs = v.a[2]
        if i < len(fs):
            return fs[i]
        return mk('undef')
    if v.op == 'ref':
        return v
    if v.op == 'dyn':
        return v
    return mk('fld', v, i)

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen

def contains(t, pred):
    return any(pred(x) for x in subterms(t))
