"""Locks on values files along one abstract path."""
import re
from .rulelib import *
from . import txlib
from .linear import Facts

RD, WR, UN = 0, 1, 2
F_OFD = (37, 38)
KINDS = {'LockShared': RD, 'LockSharedNonblock': RD, 'LockExclusive': WR, 'LockExclusiveNonblock': WR, 'Unlock': UN, 'UnlockNonblock': UN}
DISCARD = re.compile(r'(^|::)(fallocate(64)?|ftruncate(64)?|truncate64|unlink(at)?|renameat2?|fs::(remove_file|remove_dir|remove_dir_all|rename|write|hard_link)|File::(set_len|create)|OpenOptions::truncate|tempfile::.*persist\w*)$')

def nonneg(a):
    """atoms that are unsigned"""
    if a.op in ('col', 'pos', 'fend', 'lseekret', 'blksize', 'floor', 'len', 'filelen', 'metalen'):
        return True
    if a.op == 'fld':
        return True          # the numeric fields the rules look at are u64 (offsets and lengths)
    return False

class Lock:
    def __init__(self, i, e, typ, start, length):
        self.i, self.e, self.typ, self.start, self.length = i, e, typ, start, length

def fileof(fd):
    return fd.a[0] if isinstance(fd, Term) and fd.op == 'fd' else fd

def lockcall(P, e):
    """(file, type, start, length or None for to-the-end, error text)"""
    if e.k == 'sys' and e.name == 'fcntl':
        a = e.d.get('arg')
        c = e.cmd.a[0] if e.cmd.op == 'int' else None
        if c not in F_OFD or a is None or a.op != 'agg' or len(a.a[2]) < 4:
            return None
        ty, wh, s, n = a.a[2][:4]
        if ty.op != 'int' or wh is not I(0):
            return (fileof(e.fd), UN, I(0), I(0), 'a lock request with type %s whence %s' % (show(ty), show(wh)))
        return (fileof(e.fd), ty.a[0], s, n, None)
    if e.k == 'sys' and e.name == 'flock':
        v = variant_name(P, e.arg)
        return (fileof(e.fd), KINDS.get(v, UN), I(0), I(0), None)
    return None

def shared(f):
    """the open file whose locks a handle shares"""
    while f.op == 'dupfile':
        f = f.a[0]
    return f

class FileState:
    """walks a trace: which locks each file holds before each event"""
    def __init__(self, tr, init=None):
        self.tr = tr
        self.P = tr.I.P
        self.held = {}
        self.path = {}
        self.opened = {}
        self.closed = set()
        self.dups = {}             # file -> further handles that share its locks
        self.init = init           # file term -> list of locks it is known to hold on entry
        self._facts = None

    @property
    def facts(self):
        if self._facts is None:
            self._facts = Facts(self.tr, nonneg)
        return self._facts

    def locks(self, f):
        f = shared(f)
        if f not in self.held:
            self.held[f] = list(self.init(f)) if self.init and f not in self.opened else []
        return self.held[f]

    def step(self, i, e):
        if e.k == 'open' and e.outcome == 'ok':
            self.path[e.file] = e.path
            self.opened[e.file] = e
            self.held[e.file] = []
        elif e.k == 'fs' and e.op == 'dup' and e.outcome == 'ok':
            self.dups[shared(e.file)] = self.dups.get(shared(e.file), 0) + 1
        elif e.k == 'close':
            f = shared(e.file)
            if self.dups.get(f):
                self.dups[f] -= 1
            else:
                self.held[f] = []
                self.closed.add(f)
        elif e.k == 'sys':
            c = lockcall(self.P, e)
            if c is None or e.outcome != 'ok':
                return
            f, typ, s, n, err = c
            f = shared(f)
            cur = self.locks(f)
            whole = e.name == 'flock'
            if typ == WR:
                cur.append(Lock(i, e, WR, s, n))
                return
            keep = []
            for l in cur:
                if l.typ == RD and typ == RD:
                    keep.append(l)
                    continue
                if whole or n is I(0):
                    # [s, oo) is gone: what is left of an exclusive lock is below s
                    if not whole and self.facts.entails(sub(s, l.start)) and l.start is not s:
                        keep.append(Lock(l.i, l.e, l.typ, l.start, sub(s, l.start)))
                elif s is l.start:
                    end = add(s, n)
                    keep.append(Lock(l.i, l.e, l.typ, end, I(0) if l.length is I(0) else sub(l.length, n)))
                elif l.length is not I(0) and self.facts.entails(sub(s, add(l.start, l.length))):
                    keep.append(l)
                elif self.facts.entails(sub(l.start, add(s, n))):
                    keep.append(l)
            if typ == RD:
                keep.append(Lock(i, e, RD, s, n))
            self.held[f] = keep

    def covers(self, f, off, n=None, shared=False):
        """an exclusive lock on f that covers [off, off+n) (to the end of the file if n is None)"""
        for l in self.locks(f):
            if l.typ != WR and not shared:
                continue
            if l.start is not off and not self.facts.entails(sub(off, l.start)):
                continue
            if l.length is I(0):
                return l
            if n is not None and self.facts.entails(sub(add(l.start, l.length), add(off, n))):
                return l
        return None

def callee_defs(P, f):
    """names of the functions a body calls or mentions"""
    out = set()
    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'fn' and isinstance(x[1], int) and 0 <= x[1] < len(P.F):
                out.add(P.F[x[1]]['path'])
            for y in x:
                if isinstance(y, (list, dict)):
                    walk(y)
        elif isinstance(x, dict):
            if 'def' in x:
                out.add(x['def'])
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    walk(f['blocks'])
    return out

def direct_callers(P, rx):
    """crate functions whose body names a function matching rx"""
    out = {}
    for f in P.F:
        if 'blocks' in f and P.local(f):
            m = sorted(d for d in callee_defs(P, f) if rx.search(txlib.check.strip_generics(d)))
            if m:
                out.setdefault(f['path'], (f, m))
    return out

def field_named_or_typed(P, owner, name, ty):
    return txlib.structf(P, owner).get(name, txlib.field_of_type(P, owner, ty))

class EF:
    """the layout of ExclusiveFile"""
    def __init__(self, P):
        self.file = txlib.field_of_type(P, 'ExclusiveFile', 'fs::File')
        f = txlib.structf(P, 'ExclusiveFile')
        if 'last_committed_offset' not in f:
            raise Missing('ExclusiveFile.last_committed_offset')
        self.lco = f['last_committed_offset']
        self.holders = {txlib.field_of_type(P, 'ValueWriter', 'ExclusiveFile')}
        self.kept = txlib.seq_field(P, 'BatchWriter', 'ExclusiveFile')
        self.tag = [t['n'] for t in P.T if t['k'] == 'adt' and t['n'].split('::')[-1] == 'ExclusiveFile'][0]

    def init(self, f):
        """an exclusive file that comes from outside holds its lock from its last committed offset on"""
        if f.op == 'fld' and f.a[1] == self.file:
            x = f.a[0]
            if x.op == 'fld' and x.a[1] in self.holders or self.from_map(x) or x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == self.kept:
                return [Lock(-1, None, WR, mk('fld', x, self.lco), I(0))]
        return []

    @staticmethod
    def from_map(x):
        return x.op in ('mget', 'mval', 'mremoved') or x.op == 'fld' and x.a[0].op in ('mget', 'mremoved')

def discards(e):
    """('range', file, off, n or None) / ('path', path) / None: stored bytes this event throws away"""
    if e.k == 'sys' and e.name == 'fallocate':
        m = e.mode.a[0] if e.mode.op == 'int' else 255
        if m & ~1:
            return ('range', fileof(e.fd), e.off, e.d['len'])
        return None
    if e.k == 'sys' and e.name in ('ftruncate', 'truncate'):
        return ('range', fileof(e.fd), e.d.get('len') or I(0), None)
    if e.k == 'fs':
        if e.op == 'set_len':
            return ('range', e.file, e.d['n'], None)
        if e.op in ('remove_file', 'remove_dir_all', 'fswrite'):
            return ('path', e.path)
        if e.op == 'rename':
            return ('path', e.d.get('to') or e.path)
    if e.k == 'open' and 'truncate' in e.flags and 'create_new' not in e.flags:
        return ('path', e.path)
    return None

def prefix_of(t):
    """the constant text a term of a file name starts with"""
    if t.op == 'str':
        return t.a[0]
    if t.op == 'vec':
        b = []
        for x in t.a[0]:
            if not isinstance(x, Term) or x.op != 'int':
                break
            b.append(x.a[0] & 255)
        return bytes(b)
    if t.op in ('fmt', 'cat') and t.a and isinstance(t.a[0], tuple) and t.a[0]:
        x = t.a[0][0]
        return prefix_of(x) if isinstance(x, Term) else b''
    return b''

def not_values_path(p):
    """a name in the directory that no values file has"""
    if p.op == 'join':
        n = prefix_of(p.a[1])
        k = min(len(n), 7)
        return k > 0 and n[:k] != b'values-'[:k]
    return False

def unexplored(ctx, res, rx):
    """report the functions that name something matching rx and were not reached from any root"""
    lib = ctx.prog('lib')
    files = {f['sp'][0] for f in lib.F if 'blocks' in f and lib.local(f)}
    for which in ('lib', 'bin'):
        P = ctx.prog(which)
        for p, (f, m) in direct_callers(P, rx).items():
            if which == 'bin' and f['sp'][0] in files or p in res.fns:
                continue
            k = 'unexplored:' + p
            res.bad.setdefault(k, dict(key=k, msg='%s uses %s and is not reached from any of the analysed operations' % (p, ', '.join(m)), root='crate',
                                       where='%s:%s' % (f['sp'][0], f['sp'][1]), fn=p, chain=None, path=None))
