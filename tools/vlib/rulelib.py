"""Helpers shared by the rules."""
from . import terms, interp, models, sqlan, check
from .terms import *
from .check import Job, Coll, Missing, find, loc, pretty

def A(*names):
    """explicit symbolic arguments, independent of parameter names"""
    ts = [n if isinstance(n, Term) else mk('arg', n) for n in names]
    return lambda I_, f: list(ts)

ENVF = mk('envset', S('POSSUM_EMULATE_FREEBSD'))

def flockmode(on, then=None):
    def f(I_, st):
        st.facts[ENVF] = bool(on)
        if then:
            then(I_, st)
    return f

def need(P, sel, which='first'):
    fs = find(P, sel)
    if not fs:
        raise Missing('no function matching %s in the analysed crate' % sel)
    return fs[0]

def enum(P, suffix, vname, *fields):
    for i, t in enumerate(P.T):
        if t['k'] == 'adt' and (t['n'] == suffix or t['n'].endswith('::' + suffix)) and t['kind'] == 'enum':
            for j, v in enumerate(t['variants']):
                if v['n'] == vname:
                    return mk('agg', t['n'], j, tuple(fields))
    raise Missing('enum %s::%s' % (suffix, vname))

def optterm(P, inner, val=None):
    tag = 'std::option::Option<%s>' % inner
    return mk('agg', tag, 1, (val,)) if val is not None else mk('agg', tag, 0, ())

def rkind(tr):
    """('ok', payload) / ('err', e) / ('ret', v) for a returned value, else (outcome, why)"""
    if tr.outcome != 'ret':
        return tr.outcome, tr.why
    return vkind(tr.value)

def vkind(v):
    if isinstance(v, Term) and v.op == 'agg' and v.a[0].startswith('std::result::Result<'):
        return ('ok' if v.a[1] == 0 else 'err'), (v.a[2][0] if v.a[2] else UNIT)
    return 'ret', v

def optkind(v):
    if isinstance(v, Term) and v.op == 'agg' and v.a[0].startswith('std::option::Option<'):
        return ('some', v.a[2][0]) if v.a[1] == 1 else ('none', None)
    return '?', v

def evs(tr, *ks):
    return [e for e in tr.events if e.k in ks]

def variant_name(P, v):
    if v.op == 'agg':
        i = P.tyname.get(v.a[0])
        if i is not None and P.T[i]['k'] == 'adt':
            return P.T[i]['variants'][v.a[1]]['n']
    return None

EFFECTS = ('fs', 'sys', 'open', 'exec', 'pragma', 'commit', 'rollback', 'begin', 'sqlopen', 'dbconfig')

def empty_bytes(t):
    return isinstance(t, Term) and (t.op in ('arr', 'vec') and not t.a[0] or t.op == 'str' and len(t.a[0]) == 0)

def isempty(tr, b):
    """the path is only taken for an empty buffer"""
    return b.op == 'raw' and tr.I.decide(tr.st, eq0(b.a[1])) is True

def same_bytes(tr, t, want):
    """t holds the bytes want, as far as this path knows"""
    return t is want or empty_bytes(t) and isempty(tr, want)
