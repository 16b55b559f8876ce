"""Linear facts about one path: a small polyhedral domain over terms.

Constraints are  c + sum(k*atom) >= 0  over the integers.  `entails` eliminates variables (Fourier-Motzkin over the
rationals, with integer tightening), so a positive answer is a proof and a negative one means only "not shown".
"""
from math import gcd
from .terms import *

CAP = 3000

def _norm(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return c // g, {k: v // g for k, v in d.items()}      # floor of the constant: integer tightening
    return c, d

class Facts:
    def __init__(self, tr, nonneg=lambda a: False, extra=()):
        self.cs = []
        self.eqs = []
        self.pos = set()
        self.ne = []
        self._ax = None
        self._axn = -1
        self._memo = {}
        for f, v in tr.facts.items():
            if isinstance(f, Term) and isinstance(v, bool):
                self.note(f, v)
        for t in extra:
            self.ge(t)
        self.nonneg = nonneg

    def note(self, f, v):
        if f.op == 'not':
            return self.note(f.a[0], not v)
        if f.op == 'and' and v:
            self.note(f.a[0], True)
            self.note(f.a[1], True)
            return
        if f.op == 'lt0':
            if v:
                self.ge(add(neg(f.a[0]), I(-1)))
            else:
                self.ge(f.a[0])
        elif f.op == 'eq0':
            if v:
                self.ge(f.a[0])
                self.ge(neg(f.a[0]))
                self.eqs.append(f.a[0])
            else:
                self.pos.add(f.a[0])
                c, d = lin_of(f.a[0])
                if len(d) > 1 or c:
                    self.ne.append(_norm(c, d) if not c else (c, d))

    def ge(self, t):
        self._memo.clear()
        c, d = lin_of(t)
        if d:
            self.cs.append(_norm(c, d))

    def _axiom(self, a):
        """constraints that hold because of what the atom is"""
        if a in self._ax:
            return
        self._ax[a] = l = []
        new = []
        if a.op == 'floor':
            x, m = a.a
            new.append(sub(x, a))                              # floor(x,m) <= x
            new.append(add(add(a, m), add(neg(x), I(-1))))     # x <= floor(x,m) + m - 1
        elif a.op == 'len':
            new.append(a)
        elif a.op == 'max':
            new += [sub(a, a.a[0]), sub(a, a.a[1])]
        elif a.op == 'min':
            new += [sub(a.a[0], a), sub(a.a[1], a)]
        if self.nonneg(a):
            new.append(add(a, I(-1)) if a in self.pos else a)
        for n in new:
            c, d = lin_of(n)
            if d:
                l.append(_norm(c, d))
        for n in new:
            for b in lin_of(n)[1]:
                self._axiom(b)

    def entails(self, t):
        """is t >= 0 on this path?"""
        r = self._memo.get(t)
        if r is None:
            r = self._memo[t] = self._entails(t)
        return r

    def _entails(self, t):
        c, d = lin_of(t)
        if not d:
            return c >= 0
        # relevant facts: connected through shared atoms (what the atoms are included)
        if self._ax is None or self._axn != len(self.cs):
            self._axn = len(self.cs)
            self._ax = {}
            for x in self.cs:
                for a in x[1]:
                    self._axiom(a)
        for a in d:
            self._axiom(a)
        pool = self.cs + [y for l in self._ax.values() for y in l]
        atoms, use = set(d), []
        while True:
            more = [x for x in pool if any(a in atoms for a in x[1])]
            if not more:
                break
            pool = [x for x in pool if not any(a in atoms for a in x[1])]
            use += more
            for x in more:
                atoms.update(x[1])
        cs = [(-1 - c, {k: -v for k, v in d.items()})] + use          # negated goal: -t - 1 >= 0
        return _infeasible(cs) or self._split(cs, [x for x in self.ne if atoms.issuperset(x[1])], 2)

    def _split(self, cs, ne, depth):
        """case distinction on what is known to be different from zero"""
        for i, (c, d) in enumerate(ne if depth else ()):
            sides = [cs + [(c - 1, d)], cs + [(-c - 1, {k: -v for k, v in d.items()})]]
            left = [s for s in sides if not _infeasible(s)]
            if not left or len(left) == 1 and self._split(left[0], ne[i + 1:], depth - 1):
                return True
        return False

    def eq(self, a, b):
        d = sub(a, b)
        return d is I(0) or self.entails(d) and self.entails(neg(d))

    def aligned(self, t, m):
        """is t a multiple of m on this path?"""
        c, d = lin_of(t)
        rest = {}
        for a, k in d.items():
            if a is m or a.op == 'floor' and a.a[1] is m or a.op == 'mul' and m in a.a:
                continue
            rest[a] = k
        r = mklin(c, rest)
        if r is I(0):
            return True
        for e in self.eqs:
            for s in (1, -1):
                x = add(r, scale(e, s))
                c2, d2 = lin_of(x)
                if c2 == 0 and all(a is m or a.op == 'floor' and a.a[1] is m for a in d2):
                    return True
        return False

def _infeasible(cs):
    seen = set()
    cur = []
    def put(lst, c, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c < 0
        c, d = _norm(c, d)
        key = (c, tuple(sorted((k.id, v) for k, v in d.items())))
        if key not in seen:
            seen.add(key)
            lst.append((c, d))
        return False
    for c, d in cs:
        if put(cur, c, d):
            return True
    while True:
        vs = {}
        for c, d in cur:
            for k, v in d.items():
                p = vs.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not vs:
            return False
        k = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1], x.id))
        pos = [x for x in cur if x[1].get(k, 0) > 0]
        negs = [x for x in cur if x[1].get(k, 0) < 0]
        nxt = [x for x in cur if not x[1].get(k, 0)]
        if len(pos) * len(negs) + len(nxt) > CAP:
            return False
        seen = set((c, tuple(sorted((q.id, v) for q, v in d.items()))) for c, d in nxt)
        for c1, d1 in pos:
            for c2, d2 in negs:
                a, b = -d2[k], d1[k]
                d = {}
                for q, v in d1.items():
                    d[q] = d.get(q, 0) + v * a
                for q, v in d2.items():
                    d[q] = d.get(q, 0) + v * b
                if put(nxt, c1 * a + c2 * b, d):
                    return True
        cur = nxt
