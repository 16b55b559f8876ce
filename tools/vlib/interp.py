"""Trace-partitioning abstract interpreter over exported MIR.

Abstract values are provenance terms (terms.py).  The analysis enumerates the control-flow paths of an
entry point, inlining crate-local callees, with each loop unrolled to a fixed number of abstract
iterations (fresh summary elements) and branches correlated through facts on identical terms.
The result is a list of Trace objects: the ordered storage events and assumptions plus the outcome.
"""
import json, re, sys
from . import terms
from .terms import *

REG = {}            # type name -> type dict (enum discriminants)

def _isenum(tag):
    t = REG.get(tag)
    return bool(t and t.get('kind') == 'enum')

terms.b_is_enum = _isenum

def discr_val(tag, v):
    t = REG.get(tag)
    if t and t.get('variants') and v < len(t['variants']):
        return int(t['variants'][v]['d'])
    return v

terms.DISCR = lambda tag, v: discr_val(tag, v)

class Program:
    def __init__(self, path):
        txt = open(path).read().replace('"/repo/', '"').replace('@/repo/', '@')
        d = json.loads(txt)
        self.crate = d['crate']
        self.T = d['types']
        self.F = d['fns']
        self.roots = d['roots']
        self.generic = d['generic']
        self.byname = {}
        for f in self.F:
            self.byname.setdefault(f['name'], f)
        self.tyname = {}
        for i, t in enumerate(self.T):
            self.tyname.setdefault(t['n'], i)
            if t['k'] == 'adt':
                REG.setdefault(t['n'], t)
        self._rel = {}
        self._heads = {}
        self.drop_impl = {}
        self.next_impl = {}
        for f in self.F:
            it = f.get('impltrait')
            if 'blocks' in f:
                m = re.match(r'^<(.*) as std::iter::Iterator>::next$', f['name'])
                if m:
                    self.next_impl[m.group(1)] = f['id']

    def local(self, f):
        return f['path'].startswith('possum::') or f['krate'] == self.crate

    def fns(self, pred):
        return [f for f in self.F if pred(f)]

    def find(self, suffix):
        return [f for f in self.F if 'blocks' in f and (f['name'] == suffix or f['path'] == suffix)]

    def adt_by_path(self, path):
        for i, t in enumerate(self.T):
            if t['k'] == 'adt' and t['path'] == path:
                return i
        return None

    # does dropping a value of this type do anything we model?
    REL_PATHS = ('std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard',
                 'std::fs::File', 'rusqlite::Transaction', 'rusqlite::Savepoint', 'std::sync::mpsc::SyncSender', 'std::sync::mpsc::Sender',
                 'std::sync::mpsc::Receiver', 'tempfile::TempDir', 'tempfile::NamedTempFile', 'std::os::fd::OwnedFd', 'nix::fcntl::Flock')

    def relevant(self, ty, seen=None):
        r = self._rel.get(ty)
        if r is not None:
            return r
        if seen is None:
            seen = set()
        if ty in seen or ty < 0:
            return False
        seen.add(ty)
        t = self.T[ty]
        k = t['k']
        r = False
        if k == 'adt':
            if t['path'] in self.REL_PATHS:
                r = True
            elif t.get('drop', -1) >= 0 and 'blocks' in self.F[t['drop']]:
                r = True
            elif t['path'] == 'std::mem::ManuallyDrop':
                r = False
            else:
                r = any(self.relevant(x, seen) for x in t['targs']) if not t.get('local') else False
                if not r and (t.get('local') or t['path'].startswith('std::option') or t['path'].startswith('std::result')):
                    for v in t['variants']:
                        for _, ft in v['f']:
                            if self.relevant(ft, seen):
                                r = True
        elif k == 'tuple':
            r = any(self.relevant(x, seen) for x in t['ts'])
        elif k == 'closure':
            r = any(self.relevant(x, seen) for x in t['ups'])
        elif k in ('array', 'slice'):
            r = self.relevant(t['t'], seen)
        seen.discard(ty)
        if not seen:
            self._rel[ty] = r
        return r

    def loop_heads(self, f):
        h = self._heads.get(f['id'])
        if h is None:
            h = set()
            color = {}
            stack = [(0, None)]
            blocks = f['blocks']

            def succ(i):
                b = blocks[i]
                if not b:
                    return []
                t = b['t']
                if t[0] == 'goto':
                    return [t[1]]
                if t[0] == 'sw':
                    return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
                if t[0] == 'drop':
                    return [t[2]]
                if t[0] == 'call':
                    return [t[4]] if t[4] is not None and t[4] >= 0 else []
                if t[0] == 'assert':
                    return [t[3]]
                return []
            # iterative DFS
            st = [(0, iter(succ(0)))]
            color[0] = 1
            while st:
                n, it = st[-1]
                for s in it:
                    if color.get(s, 0) == 0:
                        color[s] = 1
                        st.append((s, iter(succ(s))))
                        break
                    elif color[s] == 1:
                        h.add(s)
                else:
                    color[n] = 2
                    st.pop()
            self._heads[f['id']] = h
        return h


class Event:
    __slots__ = ('k', 'd', 'span', 'fn', 'n', 'chain')

    def __init__(self, k, d, span, fn, n, chain=()):
        self.k = k
        self.d = d
        self.span = span
        self.fn = fn
        self.n = n
        self.chain = chain

    def __getattr__(self, x):
        try:
            return self.d[x]
        except KeyError:
            raise AttributeError(x)

    def __repr__(self):
        return '%s %s' % (self.k, {k: (show(v) if isinstance(v, Term) else v) for k, v in self.d.items()})


class Frame:
    __slots__ = ('native', 'fn', 'bb', 'locals', 'id', 'ret', 'target', 'span', 'cont', 'data', 'ctx')

    def copy(self):
        f = Frame.__new__(Frame)
        f.native = self.native
        f.fn = self.fn
        f.bb = self.bb
        f.locals = list(self.locals) if self.locals is not None else None
        f.id = self.id
        f.ret = self.ret
        f.target = self.target
        f.span = self.span
        f.cont = self.cont
        f.data = self.data
        f.ctx = self.ctx
        return f


class State:
    __slots__ = ('frames', 'fmap', 'mem', 'facts', 'bounds', 'ev', 'nev', 'visits', 'ctr', 'elems', 'x')

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.fmap = {f.id: f for f in s.frames if not f.native}
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.ev = self.ev
        s.nev = self.nev
        s.visits = dict(self.visits)
        s.ctr = self.ctr
        s.elems = self.elems
        s.x = dict(self.x)
        return s

    def fresh(self):
        self.ctr += 1
        return self.ctr


class Trace:
    __slots__ = ("I", 'root', 'events', 'facts', 'outcome', 'value', 'why', 'mem', 'fmap', 'bounds', 'st', '_cols')


class Call:
    def __init__(self, fv, args, cont=None, data=None):
        self.fv = fv
        self.args = args
        self.cont = cont
        self.data = data


class Alts:
    """list of (assumptions [(term,bool)], fn(st)->result)"""
    def __init__(self, alts):
        self.alts = alts


class Diverge:
    def __init__(self, why):
        self.why = why


class Ctx:
    __slots__ = ('I', 'P', 'f', 'callee', 'args', 'argtys', 'destty', 'span')


CONT = {}

def cont(name):
    def d(f):
        CONT[name] = f
        return f
    return d


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, models, **cfg):
        self.P = prog
        self.M = models
        self.K = cfg.get('K', 3)
        self.elem_cap = cfg.get('elem_cap', 2)
        self.elem_total = cfg.get('elem_total', 3)
        self.max_traces = cfg.get('max_traces', 20000)
        self.max_steps = cfg.get('max_steps', 3000000)
        self.row_get_fail = cfg.get('row_get_fail', False)
        self.same_file = cfg.get('same_file', False)      # every file id read from the manifest is the same one
        self.flocking = cfg.get('flocking', None)
        self.on_call = cfg.get('on_call', None)
        self.no_inline = cfg.get('no_inline', None)
        self.unmodelled = {}
        self.visited_fns = set()
        self.steps = 0
        self.ctxs = {}
        self.Kt = cfg.get('Kt', self.K + 1)
        self.err_cap = cfg.get('err_cap', 1)
        self.spawned = []
        self.truncated = False
        self.stream = None
        self.prune = None
        self.cfg = cfg

    # ------------------------------------------------------------ memory
    def getloc(self, st, loc):
        op = loc.op
        if op == 'L':
            fr = st.fmap.get(loc.a[0])
            if fr is None:
                return mk('undef')
            v = fr.locals[loc.a[1]]
            return v if v is not None else mk('undef')
        if op == 'C':
            return loc.a[0]
        v = st.mem.get(loc)
        if v is None:
            if op == 'O':
                return mk('deref', loc.a[0])
            return mk('init', loc)
        return v

    def setloc(self, st, loc, v):
        if loc.op == 'L':
            fr = st.fmap.get(loc.a[0])
            if fr is not None:
                fr.locals[loc.a[1]] = v
        elif loc.op != 'C':
            st.mem[loc] = v

    def project(self, st, v, p):
        k = p[0]
        if k == 'f':
            if v.op == 'agg':
                fs = v.a[2]
                return fs[p[1]] if p[1] < len(fs) else mk('undef')
            if v.op in ('ref', 'dyn'):
                return v
            if p[3] is not None:
                return mk('fld', mk('as', v, p[3]), p[1])
            return mk('fld', v, p[1])
        if k == 'i':
            return self.index(st, v, p[1])
        if k == 'sub':
            return mk_sub(v, p[1], p[2])
        if k == 'inner':
            if v.op == 'cell':
                return v.a[0]
            if v.op == 'agg' and len(v.a[2]) >= 1:
                return v.a[2][0]
            return mk('fld', v, 'inner')
        if k == 'mval':
            return self.map_val(st, v, p[1])
        if k == 'ci':
            i = I(p[1]) if not p[3] else sub(self.len_of(st, v), I(p[1]))
            return self.index(st, v, i)
        raise Exception('proj %r' % (p,))

    def index(self, st, v, i):
        if v.op in ('vec', 'arr') and i.op == 'int':
            es = v.a[0]
            if 0 <= i.a[0] < len(es):
                return es[i.a[0]]
        if v.op == 'agg' and i.op == 'int' and 0 <= i.a[0] < len(v.a[2]):
            return v.a[2][i.a[0]]
        if v.op == 'str' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]):
            return I(v.a[0][i.a[0]])
        if v.op == 'upd':
            b, j, x = v.a
            if j is i:
                return x
            if j.op == 'int' and i.op == 'int' or j.op in ('app', 'idxlast') or i.op == 'app':
                return self.index(st, b, i)
        if i.op == 'app':
            n = i.a[0]
            x = v
            app = []
            while x.op == 'vapp':
                app = list(x.a[1]) + app
                x = x.a[0]
            if n < len(app):
                return app[n]
            if x.op in ('vec', 'arr') and n < len(x.a[0]):
                return x.a[0][n]
        if v.op == 'vapp' and i.op == 'int':
            return self.index(st, v.a[0], i)
        if i.op == 'part':
            return self.index(st, v.a[0][i.a[0]], I(i.a[1])) if v.op == 'cat' else mk('elem', v, i)
        if v.op == 'cat' and i.op == 'int':
            first = v.a[0][0]
            if first.op in ('vec', 'arr') and i.a[0] >= len(first.a[0]):
                rest = v.a[0][1:]
                return self.index(st, rest[0] if len(rest) == 1 else mk('cat', rest), I(i.a[0] - len(first.a[0])))
            return self.index(st, v.a[0][0], i)
        if v.op == 'sub' and v.a[1].op == 'int' and i.op == 'int':
            return self.index(st, v.a[0], add(v.a[1], i))
        return mk('elem', v, i)

    def map_val(self, st, m, key):
        while m.op in ('mins', 'mrem', 'mmod'):
            if m.op == 'mins' and m.a[1] is key:
                return m.a[2]
            m = m.a[0]
        return mk('mval', m, key)

    def len_of(self, st, v):
        if v.op in ('vec', 'arr'):
            return I(len(v.a[0]))
        if v.op == 'str':
            return I(len(v.a[0]))
        if v.op == 'agg' and v.a[0] == 'arr':
            return I(len(v.a[2]))
        if v.op == 'vapp':
            return add(self.len_of(st, v.a[0]), I(len(v.a[1])))
        if v.op == 'sub':
            return sub(v.a[2], v.a[1])
        if v.op in ('upd',):
            return self.len_of(st, v.a[0])
        if v.op == 'cat':
            r = I(0)
            for x in v.a[0]:
                r = add(r, self.len_of(st, x))
            return r
        if v.op == 'raw':
            return v.a[1]
        if v.op == 'mmap':
            return v.a[2]
        if v.op == 'mempty':
            return I(0)
        return mk('len', v)

    def read(self, st, loc, projs):
        v = self.getloc(st, loc)
        for p in projs:
            v = self.project(st, v, p)
        return v

    def write(self, st, loc, projs, val):
        if not projs:
            self.setloc(st, loc, val)
            return
        base = self.getloc(st, loc)
        self.setloc(st, loc, self.update(st, base, projs, 0, val))

    def update(self, st, base, projs, i, val):
        if i == len(projs):
            return val
        p = projs[i]
        k = p[0]
        if k == 'f':
            if base.op == 'agg':
                fs = list(base.a[2])
                while len(fs) <= p[1]:
                    fs.append(mk('undef'))
                fs[p[1]] = self.update(st, fs[p[1]], projs, i + 1, val)
                return mk('agg', base.a[0], base.a[1], tuple(fs))
            if base.op in ('ref', 'dyn'):
                return base
            # expand symbolic aggregate by its type
            bt = p[2]
            n = None
            tag = None
            if bt is not None and bt >= 0:
                t = self.P.T[bt]
                if t['k'] == 'adt':
                    var = p[3] or 0
                    if t['variants']:
                        n = len(t['variants'][var]['f'])
                    tag = t['n']
                elif t['k'] == 'tuple':
                    n = len(t['ts'])
                    tag = 'tup'
                elif t['k'] == 'closure':
                    n = len(t['ups'])
                    tag = 'clo:%d' % bt
            if n is None:
                return mk('havoc', base, val)
            b2 = base if p[3] is None else mk('as', base, p[3])
            if base.op == 'undef':
                fs = [mk('undef')] * n
            else:
                fs = [mk('fld', b2, j) for j in range(n)]
            if p[1] >= n:
                return mk('havoc', base, val)
            fs[p[1]] = self.update(st, fs[p[1]], projs, i + 1, val)
            return mk('agg', tag, p[3] or 0, tuple(fs))
        if k == 'i' or k == 'ci':
            idx = p[1] if k == 'i' else I(p[1])
            old = self.index(st, base, idx)
            nv = self.update(st, old, projs, i + 1, val)
            if base.op in ('vec', 'arr') and idx.op == 'int' and 0 <= idx.a[0] < len(base.a[0]):
                es = list(base.a[0])
                es[idx.a[0]] = nv
                return mk(base.op, tuple(es))
            if base.op == 'agg' and idx.op == 'int' and 0 <= idx.a[0] < len(base.a[2]):
                es = list(base.a[2])
                es[idx.a[0]] = nv
                return mk('agg', base.a[0], base.a[1], tuple(es))
            if idx.op == 'app' and base.op in ('vec', 'vapp'):
                app = []
                x = base
                while x.op == 'vapp':
                    app = list(x.a[1]) + app
                    x = x.a[0]
                if x.op == 'vec':
                    app = list(x.a[0]) + app
                    x = None
                if idx.a[0] < len(app):
                    app[idx.a[0]] = nv
                    return mk('vapp', x, tuple(app)) if x is not None else mk('vec', tuple(app))
            if base.op == 'vapp' and idx.op == 'int':
                return mk('vapp', self.update(st, base.a[0], (('i', idx),), 0, nv), base.a[1])
            if base.op == 'upd' and base.a[1] is idx:
                base = base.a[0]
            return mk('upd', base, idx, nv)
        if k == 'inner':
            if base.op == 'cell':
                return mk('cell', self.update(st, base.a[0], projs, i + 1, val))
            if base.op == 'agg' and base.a[2]:
                fs = list(base.a[2])
                fs[0] = self.update(st, fs[0], projs, i + 1, val)
                return mk('agg', base.a[0], base.a[1], tuple(fs))
            return mk('cell', self.update(st, mk('fld', base, 'inner'), projs, i + 1, val))
        if k == 'mval':
            old = self.map_val(st, base, p[1])
            nv = self.update(st, old, projs, i + 1, val)
            return map_set(base, p[1], nv)
        if k == 'sub':
            return mk('upd', base, mk('rng', p[1], p[2]), val)
        raise Exception('update %r' % (p,))

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """MIR place -> (loc, projs)"""
        li, ps = pl
        loc = mk('L', fr.id, li)
        if not ps:
            return loc, ()
        T = self.P.T
        ty = fr.fn['locals'][li]
        out = ()
        var = None
        for p in ps:
            k = p[0]
            if k == '*':
                v = self.read(st, loc, out)
                loc, out = self.deref(v)
                var = None
                t = T[ty] if ty is not None and ty >= 0 else None
                if t and t['k'] in ('ref', 'ptr'):
                    ty = t['t']
                elif t and t['k'] == 'adt' and t['targs']:
                    ty = t['targs'][0]
                else:
                    ty = None
            elif k == 'f':
                out = out + (('f', p[1], ty, var),)
                var = None
                ty = p[2]
            elif k == 'v':
                var = p[1]
                # structs never carry a downcast
            elif k == 'i':
                iv = fr.locals[p[1]] or mk('undef')
                out = out + (('i', iv),)
                t = T[ty] if ty is not None and ty >= 0 else None
                ty = t['t'] if t and 't' in t else None
            elif k == 'ci':
                out = out + (('ci', p[1], p[2], p[3]),)
                t = T[ty] if ty is not None and ty >= 0 else None
                ty = t['t'] if t and 't' in t else None
            elif k == 'ss':
                v = self.read(st, loc, out)
                to = I(p[2]) if not p[3] else sub(self.len_of(st, v), I(p[2]))
                out = out + (('sub', I(p[1]), to),)
        return loc, out

    def deref(self, v):
        while v.op == 'dyn':
            v = v.a[0]
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return mk('O', v), ()

    def load(self, st, refv):
        loc, pr = self.deref(refv)
        return self.read(st, loc, pr)

    def store(self, st, refv, val):
        loc, pr = self.deref(refv)
        self.write(st, loc, pr, val)

    def resolve(self, st, v, n=8):
        """strip references: the value finally pointed to"""
        while n and v.op in ('ref', 'dyn'):
            v = self.load(st, v)
            n -= 1
        return v

    def alloc(self, st, v, tag='H'):
        h = mk(tag, st.fresh())
        st.mem[h] = v
        return mk('ref', h, ())

    # ------------------------------------------------------------ constants / operands
    def const(self, c, ty):
        k = c[0]
        if k == 'int':
            return I(int(c[1]))
        if k == 'bool':
            return B(c[1])
        if k == 'char':
            return I(int(c[1])) if not isinstance(c[1], str) or c[1].isdigit() else I(ord(c[1]))
        if k in ('str', 'bytes'):
            return mk('ref', mk('C', mk('str', bytes(c[1]))), ())
        if k == 'bytearr':
            return mk('str', bytes(c[1]))
        if k == 'ref':
            t = self.P.T[ty] if ty is not None and ty >= 0 else None
            inner = t.get('t') if t else None
            return mk('ref', mk('C', self.const(c[1], inner if inner is not None else -1)), ())
        if k == 'array':
            return mk('arr', tuple(self.const(x, -1) for x in c[1]))
        if k == 'agg':
            t = self.P.T[c[1]]
            tag = t['n'] if t['k'] == 'adt' else ('tup' if t['k'] == 'tuple' else ('clo:%d' % c[1] if t['k'] == 'closure' else t['n']))
            return mk('agg', tag, c[2], tuple(self.const(x, -1) for x in c[3]))
        if k == 'zst':
            t = self.P.T[c[1]]
            if t['k'] == 'closure':
                return mk('agg', 'clo:%d' % c[1], 0, ())
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'fndef':
                return mk('fn', c[1])
            return mk('agg', t['n'], 0, ())
        if k == 'fn':
            return mk('fn', ty)
        if k == 'fnptr':
            return mk('fnid', c[1])
        if k == 'static':
            return mk('ref', mk('S', c[1]), ())
        n = ty if ty is not None and ty >= 0 else None
        return mk('const', self.P.T[n]['n'] if n is not None else '?')

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c':
            v = o[1]
            if v[0] == 'fn':
                return mk('fn', o[2])
            if v[0] == 'opaque' or v[0] == 'other':
                if len(o) > 3:
                    return mk('const', o[3], self.P.T[o[2]]['n'])
            return self.const(v, o[2])
        pl = o[1]
        if not pl[1]:
            v = fr.locals[pl[0]]
            return v if v is not None else mk('undef')
        loc, pr = self.place(st, fr, pl)
        return self.read(st, loc, pr)

    def optype(self, fr, o):
        if o[0] == 'c':
            return o[2]
        return self.ptype(fr, o[1])

    def ptype(self, fr, pl):
        T = self.P.T
        ty = fr.fn['locals'][pl[0]]
        for p in pl[1]:
            if ty is None or ty < 0:
                return None
            if p[0] == 'f':
                ty = p[2]
            elif p[0] == '*':
                t = T[ty]
                ty = t['t'] if t['k'] in ('ref', 'ptr') else (t['targs'][0] if t['k'] == 'adt' and t['targs'] else None)
            elif p[0] in ('i', 'ci'):
                ty = T[ty].get('t')
        return ty

    def rvalue(self, st, fr, r, destpl):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'rawptr' and len(r) == 3 and isinstance(r[2], int):
            loc, pr = self.place(st, fr, r[1])
            return mk('ref', loc, pr)
        if k == 'adt':
            t = self.P.T[r[1]]
            fs = tuple(self.operand(st, fr, o) for o in r[3])
            if r[4] is not None and r[4] >= 0:
                n = len(t['variants'][0]['f'])
                l = [mk('undef')] * n
                l[r[4]] = fs[0]
                fs = tuple(l)
            return mk('agg', t['n'], r[2], fs)
        if k == 'tup':
            return mk('agg', 'tup', 0, tuple(self.operand(st, fr, o) for o in r[1]))
        if k == 'arr':
            return mk('arr', tuple(self.operand(st, fr, o) for o in r[1]))
        if k == 'clo':
            return mk('agg', 'clo:%d' % r[1], 0, tuple(self.operand(st, fr, o) for o in r[2]))
        if k == 'discr':
            loc, pr = self.place(st, fr, r[1])
            v = self.read(st, loc, pr)
            if v.op == 'agg':
                return I(discr_val(v.a[0], v.a[1]))
            if v.op == 'bool':
                return I(int(v.a[0]))
            d = mk('discr', v)
            ty = self.ptype(fr, r[1])
            if ty is not None and ty >= 0:
                t = self.P.T[ty]
                if t['k'] == 'adt' and t['kind'] == 'enum':
                    self.discr_dom.setdefault(d, tuple(int(x['d']) for x in t['variants']))
                    if len(t['variants']) == 1:
                        return I(int(t['variants'][0]['d']))
                    kn = st.facts.get(d)
                    if isinstance(kn, int) and not isinstance(kn, bool):
                        return I(kn)
            return d
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, fr, r)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a.op == 'int':
                    return I(~a.a[0])
                return not_(a)
            if r[1] == 'Neg':
                return neg(a)
            if r[1] == 'PtrMetadata':
                return self.len_of(st, self.load(st, a))
            return mk('un', r[1], a)
        if k == 'len':
            loc, pr = self.place(st, fr, r[1])
            return self.len_of(st, self.read(st, loc, pr))
        if k == 'rep':
            return mk('rep', self.operand(st, fr, r[1]))
        if k == 'tls':
            return mk('tls', str(r[1]))
        if k == 'rawptr':
            return self.operand(st, fr, r[-1])
        return mk('opaque', st.fresh())

    def cast(self, st, fr, r):
        kind, o, ty = r[1], r[2], r[3]
        a = self.operand(st, fr, o)
        if kind.startswith('PointerCoercion(Unsize'):
            t = self.P.T[ty]
            inner = t.get('t')
            if inner is None and t['k'] == 'adt' and t['targs']:
                inner = t['targs'][0]
            if inner is not None and self.P.T[inner]['k'] == 'dyn':
                sty = self.optype(fr, o)
                s = self.P.T[sty] if sty is not None else None
                src = s.get('t') if s else None
                if src is None and s and s['k'] == 'adt' and s['targs']:
                    src = s['targs'][0]
                return mk('dyn', a, self.P.T[src]['n'] if src is not None else '?')
            return a
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
            if a.op == 'fn':
                return a
            return a
        if kind == 'IntToInt':
            if a.op == 'bool':
                return I(int(a.a[0]))
            if a.op == 'agg' and _isenum(a.a[0]):
                return I(discr_val(a.a[0], a.a[1]))
            tn = self.P.T[ty]['n']
            if a.op == 'int':
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(tn)
                if bits:
                    n = a.a[0] & ((1 << bits) - 1)
                    if tn[0] == 'i' and n >> (bits - 1):
                        n -= 1 << bits
                    return I(n)
            sty = self.optype(fr, o)
            if sty is not None and sty >= 0:
                sn = self.P.T[sty]['n']
                w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}
                if sn in w and tn in w and w[tn] < w[sn] and w[tn] < 32:
                    return mk('trunc', a, tn)
                if sn in w and tn in w and w[tn] < w[sn] and self.cfg.get('track_trunc', True) and w[tn] == 32 and w[sn] == 64:
                    return mk('trunc', a, tn)
            return a
        return a

    def binop(self, st, op, a, b, fr=None, r=None):
        ovf = False
        if op.endswith('WithOverflow'):
            op = op[:-12]
            ovf = True
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op == 'Add':
            v = add(a, b)
        elif op == 'Sub':
            v = sub(a, b)
        elif op == 'Mul':
            v = mul(a, b)
        elif op == 'Div':
            v = div(a, b)
        elif op == 'Rem':
            v = rem(a, b)
        elif op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Eq', 'Ne'):
                isb = a.op == 'bool' or b.op == 'bool'
                if not isb and fr is not None:
                    ty = self.optype(fr, r[2])
                    k = self.P.T[ty]['k'] if ty is not None and ty >= 0 else None
                    if k in ('int', 'char') or numeric(a) or numeric(b):
                        v = eq0(sub(a, b))
                    else:
                        v = eq(a, b)
                else:
                    v = eq(a, b)
                return v if op == 'Eq' else not_(v)
            uns = False
            if fr is not None:
                ty = self.optype(fr, r[2])
                t = self.P.T[ty] if ty is not None and ty >= 0 else None
                uns = bool(t and t['k'] == 'int' and not t.get('signed'))
            if op == 'Lt':
                x, y, n = a, b, False
            elif op == 'Gt':
                x, y, n = b, a, False
            elif op == 'Ge':
                x, y, n = a, b, True
            else:
                x, y, n = b, a, True
            # x < y
            if uns and y is I(0):
                v = FALSE
            elif uns and x is I(0):
                v = not_(eq0(y))
            elif uns and y is I(1):
                v = eq0(x)
            else:
                v = lt(x, y)
            return not_(v) if n else v
        elif op == 'Cmp':
            return mk('cmp', a, b)
        elif op in ('BitOr', 'BitAnd', 'BitXor', 'Shl', 'Shr'):
            if a.op == 'int' and b.op == 'int':
                x, y = a.a[0], b.a[0]
                v = I({'BitOr': x | y, 'BitAnd': x & y, 'BitXor': x ^ y, 'Shl': x << min(y, 128), 'Shr': x >> min(y, 128)}[op])
            elif op == 'BitAnd' and (a.op in ('bool', 'not', 'lt0', 'eq0', 'eqv', 'and') or b.op in ('bool', 'not', 'lt0', 'eq0', 'eqv', 'and')):
                v = and_(a, b)
            elif op == 'BitOr' and (a.op in ('bool', 'not', 'lt0', 'eq0', 'eqv', 'and') or b.op in ('bool', 'not', 'lt0', 'eq0', 'eqv', 'and')):
                v = or_(a, b)
            elif op == 'BitXor' and (a.op == 'bool' or b.op == 'bool'):
                v = eq(a, b)
                v = not_(v)
            else:
                v = mk('bit', op, a, b)
        elif op == 'Offset':
            v = mk('offset', a, b)
        else:
            v = mk('bin', op, a, b)
        if ovf:
            return mk('agg', 'tup', 0, (v, FALSE))
        return v

    # ------------------------------------------------------------ facts
    def _bkey(self, d):
        c, m = lin_of(d)
        lead = min(m, key=lambda x: x.id)
        s = 1 if m[lead] > 0 else -1
        return tuple(sorted(((a.id, k * s) for a, k in m.items()))), s, c

    def decide(self, st, t):
        """True/False/None"""
        if t.op == 'bool':
            return t.a[0]
        if t.op == 'not':
            r = self.decide(st, t.a[0])
            return None if r is None else not r
        if t.op == 'and':
            a = self.decide(st, t.a[0])
            if a is False:
                return False
            b = self.decide(st, t.a[1])
            if b is False:
                return False
            if a and b:
                return True
            return st.facts.get(t)
        if t.op == 'isd':
            kn = st.facts.get(mk('discr', t.a[0]))
            if kn is None:
                return None
            if isinstance(kn, frozenset):
                if t.a[1] in kn:
                    return False
                dom = self.discr_dom.get(mk('discr', t.a[0]))
                if dom and len([x for x in dom if x not in kn]) == 1:
                    return True
                return None
            return kn == t.a[1]
        if t.op == 'isv':
            return None
        f = st.facts.get(t)
        if f is not None:
            return f
        if t.op == 'lt0' or t.op == 'eq0':
            key, s, c = self._bkey(t.a[0])
            lo, hi, ne = st.bounds.get(key, (None, None, ()))
            if len(key) == 1 and key[0][1] == 1:
                pass
            # form F = sum (positive lead); t: s*F + c
            if t.op == 'lt0':
                # s*F + c < 0
                if s > 0:
                    if hi is not None and hi < -c:
                        return True
                    if lo is not None and lo >= -c:
                        return False
                else:
                    if lo is not None and lo > c:
                        return True
                    if hi is not None and hi <= c:
                        return False
            else:
                x = -c * s
                if lo is not None and x < lo or hi is not None and x > hi or x in ne:
                    return False
                if lo is not None and lo == hi == x:
                    return True
        return None

    def note(self, st, _k, **d):
        fr = None
        chain = []
        for f in reversed(st.frames):
            if not f.native:
                if fr is None and self.P.local(f.fn):
                    fr = f
                chain.append(f.fn['path'])
        sp = st.x.get('span')
        e = Event(_k, d, sp, fr.fn['path'] if fr else '?', st.nev, tuple(chain))
        st.ev = (e, st.ev)
        st.nev += 1
        if self.prune is not None and self.prune(e, st):
            st.x['dead'] = True
        return e

    def assume(self, st, t, val):
        """record t==val; returns False when contradictory"""
        r = self.decide(st, t)
        if r is not None:
            return r == val
        while t.op == 'not':
            t = t.a[0]
            val = not val
        if t.op == 'and':
            if val:
                return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
            st.facts[t] = False
            self.note(st, 'assume', t=t, v=False)
            # unit propagation
            a = self.decide(st, t.a[0])
            b = self.decide(st, t.a[1])
            if a is True:
                return self.assume(st, t.a[1], False)
            if b is True:
                return self.assume(st, t.a[0], False)
            return True
        if t.op == 'isd':
            return self.assume_discr(st, mk('discr', t.a[0]), t.a[1], val)
        st.facts[t] = val
        self.note(st, 'assume', t=t, v=val)
        if t.op == 'eq0' and t.a[0].op == 'col' and not self.M.row_axiom(self, st, t.a[0], val):
            return False
        if t.op in ('lt0', 'eq0'):
            key, s, c = self._bkey(t.a[0])
            lo, hi, ne = st.bounds.get(key, (None, None, ()))
            if t.op == 'eq0':
                x = -c * s
                if val:
                    lo = hi = x
                else:
                    ne = ne + (x,)
                    if lo == x:
                        lo = x + 1
                    if hi == x:
                        hi = x - 1
            else:
                if val:      # sF + c < 0
                    if s > 0:
                        hi = -c - 1 if hi is None else min(hi, -c - 1)
                    else:
                        lo = c + 1 if lo is None else max(lo, c + 1)
                else:
                    if s > 0:
                        lo = -c if lo is None else max(lo, -c)
                    else:
                        hi = c if hi is None else min(hi, c)
            if lo is not None and hi is not None and lo > hi:
                return False
            st.bounds[key] = (lo, hi, ne)
        return True

    def assume_discr(self, st, d, v, val=True):
        kn = st.facts.get(d)
        if isinstance(kn, frozenset):
            if val:
                if v in kn:
                    return False
                st.facts[d] = v
            else:
                st.facts[d] = kn | {v}
        elif kn is not None:
            return (kn == v) == val
        else:
            st.facts[d] = v if val else frozenset([v])
        self.note(st, 'discr', t=d.a[0], v=v, eq=val)
        if d.a[0].op == 'col' and v in (0, 1) and not self.M.row_axiom(self, st, d.a[0], (v == 0) == val):
            return False
        dom = self.discr_dom.get(d)
        if not val and dom:
            left = [x for x in dom if x not in st.facts[d]]
            if not left:
                return False
            if len(left) == 1:
                st.facts[d] = left[0]
                self.note(st, 'discr', t=d.a[0], v=left[0], eq=True)
        return True

    # ------------------------------------------------------------ driver
    def new_state(self):
        st = State.__new__(State)
        st.frames = []
        st.fmap = {}
        st.mem = {}
        st.facts = {}
        st.bounds = {}
        st.ev = None
        st.nev = 0
        st.visits = {}
        st.ctr = 0
        st.elems = 0
        st.x = {}
        return st

    def drive(self, st):
        self.work = [st] if st is not None else []
        self.steps = 0
        while self.work:
            if len(self.traces) >= self.max_traces or self.steps > self.max_steps:
                self.truncated = True
                break
            self.exec(self.work.pop())
        return self.traces

    def start(self, f):
        self.discr_dom = {}
        self.traces = self.stream if self.stream is not None else []
        self.root = f
        self.work = []

    def run(self, fnid, args=None, name=None, setup=None, base=None):
        f = self.P.F[fnid]
        self.start(f)
        st = base if base is not None else self.new_state()
        if args is None:
            names = {l: n for l, n in f.get('dbg', [])}
            args = [mk('arg', names.get(i + 1, 'a%d' % (i + 1))) for i in range(f['argc'])]
        if setup:
            setup(self, st)
        self.push_fn(st, f, args, None, None, f.get('sp'))
        return self.drive(st)

    def run_script(self, steps, setup=None, base=None):
        """a sequence of calls of public functions, each fed from the results of the earlier ones"""
        self.start(None)
        st = base if base is not None else self.new_state()
        if setup:
            setup(self, st)
        r = CONT['script'](self, st, (steps, 0, ()), None)
        live = self.handle(st, r, None, None, None)
        w = self.work
        if live:
            w = w + [st]
        self.steps = 0
        self.work = w
        while self.work:
            if len(self.traces) >= self.max_traces or self.steps > self.max_steps:
                self.truncated = True
                break
            self.exec(self.work.pop())
        return self.traces

    def finish(self, st, outcome, value=None, why=None):
        tr = Trace()
        tr.root = self.root
        ev = []
        p = st.ev
        while p:
            ev.append(p[0])
            p = p[1]
        ev.reverse()
        tr.events = ev
        tr.facts = st.facts
        tr.bounds = st.bounds
        tr.outcome = outcome
        tr.value = value
        tr.why = why
        tr.st = st
        self.traces.append(tr)

    def ctx_of(self, st, what):
        """static call string of a new frame"""
        if not st.frames:
            k = (0, 0, what)
        else:
            p = st.frames[-1]
            k = (p.ctx, p.bb, what)
        return self.ctxs.setdefault(k, len(self.ctxs) + 1)

    def push_fn(self, st, f, args, ret, target, span):
        fr = Frame.__new__(Frame)
        fr.native = False
        fr.fn = f
        fr.bb = 0
        fr.locals = [None] * len(f['locals'])
        fr.id = st.fresh()
        fr.ret = ret
        fr.target = target
        fr.span = span
        fr.cont = None
        fr.data = None
        fr.ctx = self.ctx_of(st, f['id'])
        n = f['argc']
        sp = f.get('spread')
        if sp:
            # arguments from `sp` on are packed in a tuple
            rest = args[sp - 1:]
            if len(rest) == 1 and rest[0].op == 'agg' and rest[0].a[0] == 'tup' and False:
                pass
            args = list(args[:sp - 1]) + [mk('agg', 'tup', 0, tuple(rest))]
        for i, a in enumerate(args):
            if i + 1 < len(fr.locals):
                fr.locals[i + 1] = a
        st.frames.append(fr)
        st.fmap[fr.id] = fr
        self.visited_fns.add(f['id'])

    def push_native(self, st, cont, data, ret, target, span):
        fr = Frame.__new__(Frame)
        fr.native = True
        fr.fn = None
        fr.bb = None
        fr.locals = None
        fr.id = -1
        fr.ret = ret
        fr.target = target
        fr.span = span
        fr.cont = cont
        fr.data = data
        fr.ctx = self.ctx_of(st, cont)
        st.frames.append(fr)

    def deliver(self, st, value, ret, target):
        """hand a value to the frame now on top. returns True to continue running st"""
        if not st.frames:
            self.finish(st, 'ret', value)
            return False
        fr = st.frames[-1]
        if fr.native:
            st.frames.pop()
            st.x['span'] = fr.span
            res = CONT[fr.cont](self, st, fr.data, value)
            return self.handle(st, res, fr.ret, fr.target, fr.span)
        if target is None or target < 0:
            self.finish(st, 'diverge')
            return False
        if ret is not None:
            self.write(st, ret[0], ret[1], value)
        fr.bb = target
        return True

    def handle(self, st, res, ret, target, span):
        if isinstance(res, Term):
            return self.deliver(st, res, ret, target)
        if isinstance(res, Call):
            if res.cont:
                self.push_native(st, res.cont, res.data, ret, target, span)
                return self.call_value(st, res.fv, list(res.args), None, None, span)
            return self.call_value(st, res.fv, list(res.args), ret, target, span)
        if isinstance(res, Alts):
            live = []
            # failure alternatives (functions named `e`) are followed at the first err_cap visits of a static call site
            noerr = False
            if len(res.alts) > 1 and any(fn.__name__ == 'e' for _, fn in res.alts):
                fr0 = st.frames[-1] if st.frames else None
                ek = ('e', fr0.ctx, fr0.bb) if fr0 is not None else None
                n = st.visits.get(ek, 0)
                st.visits[ek] = n + 1
                noerr = n >= self.err_cap
            for asm, fn in res.alts:
                if noerr and fn.__name__ == 'e':
                    continue
                ok = True
                for t, v in asm:
                    if isinstance(t, Term) and t.op != 'discr':
                        r = self.decide(st, t)
                        if r is not None and r != v:
                            ok = False
                            break
                if ok:
                    live.append((asm, fn))
            for n, (asm, fn) in enumerate(live):
                s2 = st.fork() if n < len(live) - 1 else st
                s2.x['span'] = span
                ok = True
                for t, v in asm:
                    if not self.assume(s2, t, v):
                        ok = False
                        break
                if not ok:
                    if s2 is st:
                        return False
                    continue
                r2 = fn(s2)
                cont_ = self.handle(s2, r2, ret, target, span)
                if s2 is st:
                    return cont_
                if cont_:
                    self.work.append(s2)
            return False
        if isinstance(res, Diverge):
            if isinstance(res.why, tuple) and res.why[0] == 'cut':
                self.finish(st, 'cut')
                return False
            self.finish(st, 'panic', why=res.why)
            return False
        if res is None:
            return False
        raise Exception('bad model result %r' % (res,))

    def call_value(self, st, fv, args, ret, target, span):
        """call a function value with already untupled args"""
        envref = None
        n = 8
        while fv.op in ('ref', 'dyn') and n:
            envref = fv
            fv = self.load(st, fv)
            n -= 1
        if fv.op == 'agg' and isinstance(fv.a[0], str) and fv.a[0].startswith('clo:'):
            t = self.P.T[int(fv.a[0][4:])]
            fid = t.get('inst', -1)
            if fid is None or fid < 0 or 'blocks' not in self.P.F[fid]:
                return self.deliver(st, mk('opq', 'closure', st.fresh()), ret, target)
            f = self.P.F[fid]
            lt_ = self.P.T[f['locals'][1]]
            if lt_['k'] in ('ref', 'ptr'):
                env = envref if envref is not None else self.alloc(st, fv)
            else:
                env = fv
            self.push_fn(st, f, [env] + list(args), ret, target, span)
            return True
        if fv.op == 'fn':
            t = self.P.T[fv.a[0]]
            if t['k'] == 'fndef' and t.get('ctor'):
                ty, var = t['ctor']
                return self.deliver(st, mk('agg', self.P.T[ty]['n'], var, tuple(args)), ret, target)
            fid = t.get('inst')
            if fid is not None and fid >= 0:
                return self.call_fn(st, fid, list(args), ret, target, span, None, None, None)
        if fv.op == 'fnid':
            return self.call_fn(st, fv.a[0], list(args), ret, target, span, None, None, None)
        if fv.op == 'pyfn':
            return self.handle(st, fv.a[0](self, st, args), ret, target, span)
        self.note(st, 'callopaque', f=fv, args=tuple(args))
        return self.deliver(st, mk('opq', 'call', fv, st.fresh()), ret, target)

    def call_fn(self, st, fid, args, ret, target, span, callee, argtys, destty):
        f = self.P.F[fid]
        m = self.M.lookup(f, callee)
        st.x['span'] = span
        if m is not None:
            c = Ctx.__new__(Ctx)
            c.I = self
            c.P = self.P
            c.f = f
            c.callee = callee
            c.args = args
            if argtys is None:
                argtys = [None] * len(args)
            c.argtys = argtys
            c.destty = destty if destty is not None else self.ret_type(f)
            c.span = span
            res = m(c, st)
            if res is not NotImplemented:
                return self.handle(st, res, ret, target, span)
        if 'blocks' in f and (self.no_inline is None or not self.no_inline(f)) and len(st.frames) < 90:
            if f['kind'] == 'fnptr' or f['kind'] == 'closure_once':
                # shim: first argument is callable, rest a tuple
                return self.call_value(st, args[0], self.untuple(st, args[1:]), ret, target, span)
            self.push_fn(st, f, args, ret, target, span)
            return True
        return self.opaque_call(st, f, args, ret, target, argtys, destty)

    def untuple(self, st, args):
        if len(args) == 1:
            a = args[0]
            if a.op == 'agg' and a.a[0] == 'tup':
                return list(a.a[2])
            return [mk('fld', a, 0)]
        return args

    def ret_type(self, f):
        if 'locals' in f:
            return f['locals'][0]
        return None

    def opaque_call(self, st, f, args, ret, target, argtys, destty):
        self.unmodelled[f['path']] = self.unmodelled.get(f['path'], 0) + 1
        if target is None or target < 0:
            self.finish(st, 'panic', why=('panic', f['path']))
            return False
        self.note(st, 'call', path=f['path'], args=tuple(args))
        r = mk('opq', f['path'], st.fresh(), tuple(args))
        # havoc what is reachable through unique references
        for i, a in enumerate(args):
            ty = argtys[i] if argtys and i < len(argtys) else None
            if ty is not None and ty >= 0 and self.P.T[ty]['k'] == 'ref' and self.P.T[ty]['mut']:
                loc, pr = self.deref(a)
                if a.op == 'ref':
                    old = self.read(st, loc, pr)
                    self.write(st, loc, pr, mk('havoc', old, r))
        return self.deliver(st, r, ret, target)

    # ------------------------------------------------------------ main loop
    def exec(self, st):
        P = self.P
        while True:
            if 'dead' in st.x:
                return
            fr = st.frames[-1]
            f = fr.fn
            b = f['blocks'][fr.bb]
            self.steps += 1
            if self.steps > self.max_steps:
                self.truncated = True
                return
            if b is None:
                self.finish(st, 'unwind')
                return
            if fr.bb in P.loop_heads(f):
                key = (fr.id, fr.bb)
                n = st.visits.get(key, 0) + 1
                if n > self.K:
                    self.finish(st, 'cut')
                    return
                st.visits[key] = n
                key = ('c', fr.ctx, fr.bb)
                n = st.visits.get(key, 0) + 1
                if n > self.Kt:
                    self.finish(st, 'cut')
                    return
                st.visits[key] = n
            for s in b['s']:
                k = s[0]
                if k == '=':
                    v = self.rvalue(st, fr, s[2], s[1])
                    pl = s[1]
                    if not pl[1]:
                        fr.locals[pl[0]] = v
                    else:
                        loc, pr = self.place(st, fr, pl)
                        self.write(st, loc, pr, v)
                        if loc.op == 'O':
                            st.x['span'] = b.get('sp')
                            self.note(st, 'store', loc=loc, pr=pr, v=v)
                elif k == 'sd':
                    loc, pr = self.place(st, fr, s[1])
                    v = self.read(st, loc, pr)
                    if v.op == 'agg':
                        self.write(st, loc, pr, mk('agg', v.a[0], s[2], v.a[2]))
            t = b['t']
            k = t[0]
            if k == 'goto':
                fr.bb = t[1]
            elif k == 'call':
                if not self.do_call(st, fr, t):
                    return
            elif k == 'sw':
                if not self.do_switch(st, fr, t):
                    return
            elif k == 'ret':
                v = fr.locals[0]
                if v is None:
                    v = UNIT
                st.frames.pop()
                del st.fmap[fr.id]
                st.x['span'] = fr.span
                if not self.deliver(st, v, fr.ret, fr.target):
                    return
            elif k == 'drop':
                if not P.relevant(t[3]):
                    fr.bb = t[2]
                else:
                    loc, pr = self.place(st, fr, t[1])
                    st.x['span'] = b.get('sp')
                    tgt = t[2]
                    if not self.handle(st, self.M.drop_value(self, st, mk('ref', loc, pr), t[3]), None, tgt, b.get('sp')):
                        return
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                exp = bool(t[2])
                r = self.decide(st, c)
                if r is not None and r != exp:
                    self.finish(st, 'panic', why=('assert', t[4]))
                    return
                if r is None and t[4] == 'other':
                    pass
                if r is None:
                    # arithmetic/bounds checks are not forked; assume they hold
                    if not self.assume(st, c, exp):
                        return
                fr.bb = t[3]
            elif k == 'unreach':
                self.finish(st, 'unreachable')
                self.traces.pop()
                return
            else:
                self.finish(st, 'other')
                return

    def do_switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        if v.op == 'int':
            for val, tgt in targets:
                if int(val) == v.a[0]:
                    fr.bb = tgt
                    return True
            # signed representation
            for val, tgt in targets:
                n = int(val)
                if n - v.a[0] in (1 << 32, 1 << 64, 1 << 8, 1 << 16):
                    fr.bb = tgt
                    return True
            fr.bb = other
            return True
        if v.op == 'bool':
            x = int(v.a[0])
            for val, tgt in targets:
                if int(val) == x:
                    fr.bb = tgt
                    return True
            fr.bb = other
            return True
        branches = []
        if v.op == 'discr':
            dom = self.discr_dom.get(v)
            kn = st.facts.get(v)
            used = []
            for val, tgt in targets:
                n = int(val)
                used.append(n)
                if isinstance(kn, frozenset) and n in kn:
                    continue
                if isinstance(kn, int) and not isinstance(kn, frozenset) and kn != n:
                    continue
                branches.append((('d', n), tgt))
            rest = None
            if dom is not None:
                rest = [x for x in dom if x not in used and not (isinstance(kn, frozenset) and x in kn) and not (isinstance(kn, int) and kn != x)]
            elif isinstance(kn, int):
                rest = [kn] if kn not in used else []
            if other is not None and (rest is None or rest):
                ob = fr.fn['blocks'][other]
                if not (ob and ob['t'][0] == 'unreach'):
                    branches.append((('dn', tuple(used), rest), other))
        else:
            # boolean or integer
            isbool = len(targets) == 1 and int(targets[0][0]) == 0 and v.op in ('not', 'lt0', 'eq0', 'eqv', 'and', 'isd', 'has', 'mhas')
            if not isbool:
                ty = self.optype(fr, t[1])
                isbool = ty is not None and ty >= 0 and self.P.T[ty]['k'] == 'bool'
            if isbool:
                tg = {int(val): tgt for val, tgt in targets}
                ft = tg.get(0, other)
                tt = tg.get(1, other)
                r = self.decide(st, v)
                if r is not None:
                    fr.bb = tt if r else ft
                    return True
                branches = [(('b', True), tt), (('b', False), ft)]
            else:
                for val, tgt in targets:
                    n = int(val)
                    e = eq0(sub(v, I(n)))
                    r = self.decide(st, e)
                    if r is True:
                        fr.bb = tgt
                        return True
                    if r is None:
                        branches.append((('e', e), tgt))
                if other is not None:
                    ob = fr.fn['blocks'][other]
                    if not (ob and ob['t'][0] == 'unreach'):
                        branches.append((('ne', [eq0(sub(v, I(int(val)))) for val, _ in targets]), other))
        if not branches:
            return False
        st.x['span'] = fr.fn['blocks'][fr.bb].get('sp')
        cur = fr.bb
        for n, (a, tgt) in enumerate(branches):
            last = n == len(branches) - 1
            s2 = st if last else st.fork()
            ok = True
            if a[0] == 'b':
                ok = self.assume(s2, v, a[1])
            elif a[0] == 'd':
                ok = self.assume_discr(s2, v, a[1])
            elif a[0] == 'dn':
                if a[2] is not None and len(a[2]) == 1:
                    ok = self.assume_discr(s2, v, a[2][0])
                else:
                    for n_ in a[1]:
                        kn = s2.facts.get(v)
                        if isinstance(kn, frozenset) and n_ in kn:
                            continue
                        ok = ok and self.assume_discr(s2, v, n_, False)
            elif a[0] == 'e':
                ok = self.assume(s2, a[1], True)
            else:
                for e in a[1]:
                    ok = ok and self.assume(s2, e, False)
            if not ok:
                if last:
                    return False
                continue
            s2.frames[-1].bb = tgt
            if not last:
                self.work.append(s2)
        return True

    def do_call(self, st, fr, t):
        callee, args, dest, target, destty, argtys, span = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        av = [self.operand(st, fr, a) for a in args]
        ret = self.place(st, fr, dest)
        st.x['span'] = span
        if 'op' in callee:
            fv = self.operand(st, fr, callee['op'])
            return self.call_value(st, fv, av, ret, target, span)
        if self.on_call is not None:
            self.on_call(self, st, fr, callee, av, argtys, span)
        tr = callee.get('trait')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and callee['name'] in ('call_once', 'call_mut', 'call'):
            return self.call_value(st, av[0], self.untuple(st, av[1:]), ret, target, span)
        m = self.M.lookup_trait(callee)
        if m is not None:
            c = Ctx.__new__(Ctx)
            c.I = self
            c.P = self.P
            c.f = self.P.F[callee['inst']] if callee.get('inst') is not None and callee['inst'] >= 0 else None
            c.callee = callee
            c.args = av
            c.argtys = argtys
            c.destty = destty
            c.span = span
            res = m(c, st)
            if res is not NotImplemented:
                return self.handle(st, res, ret, target, span)
        inst = callee.get('inst')
        if inst is None or inst < 0:
            f = {'path': callee['def'], 'name': callee['name'], 'id': -1, 'krate': '?', 'kind': 'item', 'targs': callee.get('targs', [])}
            m = self.M.lookup(f, callee)
            if m:
                c = Ctx.__new__(Ctx)
                c.I = self; c.P = self.P; c.f = f; c.callee = callee; c.args = av; c.argtys = argtys; c.destty = destty; c.span = span
                res = m(c, st)
                if res is not NotImplemented:
                    return self.handle(st, res, ret, target, span)
            return self.opaque_call(st, f, av, ret, target, argtys, destty)
        return self.call_fn(st, inst, av, ret, target, span, callee, argtys, destty)


def mk_sub(v, a, b):
    if v.op == 'str' and a.op == 'int' and b.op == 'int':
        return mk('str', v.a[0][a.a[0]:b.a[0]])
    if v.op == 'sub':
        return mk('sub', v.a[0], add(v.a[1], a), add(v.a[1], b))
    return mk('sub', v, a, b)


def map_set(m, key, val):
    # replace an existing concrete entry
    chain = []
    x = m
    while x.op in ('mins', 'mrem'):
        if x.op == 'mins' and x.a[1] is key:
            x = mk('mins', x.a[0], key, val)
            for op, rest in reversed(chain):
                x = mk(op, x, *rest)
            return x
        chain.append((x.op, x.a[1:]))
        x = x.a[0]
    return mk('mins', m, key, val)
