import re
from vlib.rulelib import *
from vlib import txlib, fslib
from rules import c26, c03
from rules.c23 import effects, nxio, F, SEEK_DATA, SEEK_HOLE

ID = 'C34'
RULE = '''
On every path (to the stated number of regions and rows) of listing the regions of a file: the first region begins at 0 and each other where the
one before it ended, none is empty, and the last ends at the end of the file; data ends where the next hole was found from its start, a hole
where the next data was, or at the end if none was; a failed seek makes it fail.
On every path of finding the missing holes of a values file: each range found is not empty, lies between two consecutive rows of an ordered query of
the file's values, shares nothing with a hole the seeks showed, and no further than they looked (or were at the end of the file); and the ranges
and the holes together cover everything before the last row that no row covers.  Decided by linear reasoning over the path's facts.
'''
FLOORS = {'region': 2, 'regions-end': 2, 'regions-fail': 2}
ASSUME = ['the file does not change meanwhile: two answers of the kernel that contradict each other are not considered',
          'rows of one file do not overlap (C03, C10)', 'a seek never goes back']

def regions_judge(tr, coll):
    """file_regions(file)"""
    if tr.outcome == 'panic':
        coll.bad('regions:panic', 'file_regions panics', None, tr)
    if tr.outcome != 'ret':
        return
    P, I_, st = tr.I.P, tr.I, tr.st
    k, v = rkind(tr)
    es = [e for e in effects(tr) if e.k == 'sys' or e.k == 'fs' and e.op != 'exists']
    ls = [e for e in es if e.k == 'sys' and e.name == 'lseek']
    fails = [e for e in es if e.outcome == 'err' and not (e in ls and nxio(tr, e.errno))]
    if fails:
        if k == 'ok':
            coll.bad('regions:swallow', 'file_regions reports success although a seek failed', fails[0], tr)
        else:
            coll.ok('regions-fail')
        return
    if k != 'ok':
        coll.bad('regions:err', 'file_regions fails although nothing did', None, tr)
        return
    v = I_.resolve(st, v)
    if v.op != 'vec' or any(x.op != 'agg' for x in v.a[0]):
        coll.ok('regions-form')
        return
    fl = txlib.structf(P, 'seekhole::Region')
    same = lambda a, b: a is b or I_.decide(st, eq0(sub(a, b))) is True
    at = I(0)
    for r in v.a[0]:
        s_, e_, t = r.a[2][fl['start']], r.a[2][fl['end']], r.a[2][fl['region_type']]
        if not same(s_, at):
            coll.bad('regions:gap', 'a region of a file does not begin where the one before it ended', None, tr)
            return
        kind = variant_name(P, t)
        def tried(w):
            return [e for e in ls if e.whence is I(w) and same(e.off, s_)]
        if kind == 'Data':
            good = any(e.outcome == 'ok' and same(mk('lseekret', e.id), e_) for e in tried(SEEK_HOLE))
        else:
            good = any(e.outcome == 'ok' and same(mk('lseekret', e.id), e_) for e in tried(SEEK_DATA)) or \
                   (any(e.outcome == 'err' for e in tried(SEEK_DATA) + tried(SEEK_HOLE)) or any(e.outcome == 'ok' and same(mk('lseekret', e.id), s_) for e in tried(SEEK_HOLE))) and \
                   isend(e_)
        if not good:
            coll.bad('regions:kind:%s' % kind, 'a region is reported as %s without the seeks having shown it to be' % (kind or '?'), None, tr)
            return
        if I_.decide(st, eq0(sub(s_, e_))) is not False:
            coll.bad('regions:empty', 'file_regions reports a region with nothing in it', None, tr)
            return
        coll.ok('region', kind)
        at = e_
    ends = {x for f in tr.facts if isinstance(f, Term) for x in c26.subterms(f) if isend(x)} | {e.ret for e in es if e.k == 'fs' and isinstance(e.d.get('ret'), Term)}
    if ends and not any(isend(x) and same(x, at) for x in ends):
        coll.bad('regions:short', 'file_regions stops although what it has reported does not reach the end of the file', None, tr)
    else:
        coll.ok('regions-end')

def isend(t):
    return t.op in ('fend', 'flen', 'meta_len', 'filelen', 'len')


# ---------------------------------------------------------------- missing holes

def known_holes(tr, ls):
    """(start, end or None) of the holes the seeks showed; None if the answers contradict each other"""
    I_, st = tr.I, tr.st
    same = lambda a, b: a is b or I_.decide(st, eq0(sub(a, b))) is True
    holes, stuck, seen = [], set(), {}
    for e in ls:
        if e.outcome == 'ok':
            r = mk('lseekret', e.id)
            stay = same(r, e.off)
            seen.setdefault(e.off, {})[e.whence] = 'stay' if stay else 'moved'
            if e.whence is I(SEEK_DATA) and not stay:
                holes.append((e.off, r))
        else:
            seen.setdefault(e.off, {})[e.whence] = 'none'
            if e.whence is I(SEEK_DATA):
                holes.append((e.off, None))
    for o, d in seen.items():
        a, b = d.get(I(SEEK_DATA)), d.get(I(SEEK_HOLE))
        if a == 'stay' and b in ('stay', 'none') or a == 'moved' and b in ('moved', 'none'):
            return None
        if b == 'stay' and a is None:
            return None
    return holes

def missing_judge(tr, coll):
    if tr.outcome != 'ret' or rkind(tr)[0] != 'ok':
        return
    if any(e.outcome == 'err' and e.k != 'sys' for e in effects(tr)):
        return
    P, I_, st = tr.I.P, tr.I, tr.st
    v = I_.resolve(st, rkind(tr)[1])
    S_ = txlib.scan(tr)
    xs = [x for x in S_.exs.values() if x.s and x.s['k'] == 'select' and x.where_param('file_id') is not None and x.outcome == 'rows']
    if v.op != 'vec' or any(x.op != 'agg' for x in v.a[0]) or len(xs) != 1 or not any(e.k == 'iterend' and e.d.get('id') == xs[0].id for e in tr.events):
        coll.ok('missing-form')
        return
    x = xs[0]
    o = x.s['order']
    if not o or o[0] != (('col', 'file_offset'), 'asc') or x.s['limit'] is not None:
        coll.bad('missing:query', 'the values of a file are not read in the order of their offsets', x.e, tr)
        return
    ls = [e for e in tr.events if e.k == 'sys' and e.name == 'lseek']
    holes = known_holes(tr, ls)
    if holes is None:
        return
    cols = txlib.known_cols(tr)
    fl = txlib.structf(P, 'FileRegion')
    got = []
    for r in v.a[0]:
        s_ = r.a[2][fl['start']]
        got.append((s_, add(s_, r.a[2][fl['length']]) if 'length' in fl else r.a[2][fl['end']]))
    terms = [t for a, b in got for t in (a, b)]
    vals, extra = [], []
    for _, k in x.rows:
        if txlib.is_empty_row(tr, x, k) is True:
            continue
        a, n = c03.cell(tr, x, k, 'file_offset', cols, terms), c03.cell(tr, x, k, 'value_length', cols, terms)
        if a is None or n is None:
            coll.ok('missing-form')
            return
        if vals:
            extra.append(sub(a, vals[-1][1]))
        extra.append(sub(n, I(1)))
        extra.append(a)
        vals.append((a, add(a, n)))
    for e in ls:
        if e.outcome == 'ok':
            extra.append(sub(mk('lseekret', e.id), e.off))
    fa = fslib.Facts(tr, fslib.nonneg, extra)
    if fa.entails(I(-1)):
        return
    le = lambda a, b: a is b or fa.entails(sub(b, a))
    lt_ = lambda a, b: fa.entails(add(sub(b, a), I(-1)))
    looked = [mk('lseekret', e.id) for e in ls if e.outcome == 'ok'] + [e.off for e in ls]
    ended = any(e.k == 'fs' and e.op == 'seek' for e in tr.events) or any(h[1] is None for h in holes) or any(e.outcome == 'err' for e in ls)
    starts = [I(0)] + [b for _, b in vals]
    for a, b in got:
        if not lt_(a, b):
            coll.bad('missing:empty', 'an empty range is listed as a missing hole', None, tr)
            return
        if not any(le(p, a) and le(b, n[0]) for p, n in zip(starts, vals)):
            coll.bad('missing:value', 'a range listed as a missing hole is not between two values', None, tr)
            return
        for s_, e_ in holes:
            if not (le(b, s_) or e_ is not None and le(e_, a) or e_ is not None and le(e_, s_)):
                coll.bad('missing:hole', 'a range listed as a missing hole is not known to be apart from a hole that is there', None, tr)
                return
        if not ended and not any(le(b, p) for p in looked):
            coll.bad('missing:looked', 'a range is listed as a missing hole though it is not known whether there is a hole in it', None, tr)
            return
        coll.ok('missing', show(a)[:60])
    cover = got + holes
    for p, (a, b) in zip(starts, vals):
        left = list(cover)
        while p is not None and not le(a, p):
            nxt = [c for c in left if le(c[0], p) and (c[1] is None or lt_(p, c[1]))]
            if not nxt:
                coll.bad('missing:left', 'allocated bytes before a value, that belong to no value, are not listed as a missing hole', None, tr)
                return
            left.remove(nxt[0])
            p = nxt[0][1]
        coll.ok('covered')

def jobs(ctx):
    P = ctx.prog()
    out = [Job('file_regions', need(P, 'file_regions'), args=A(F), judge=regions_judge, cfg=dict(K=4, elem_total=3))]
    B = ctx.prog('bin')
    for f in B.F:
        if 'blocks' in f and B.local(f) and re.search(r'Result<std::vec::Vec<(\w+::)*FileRegion>', B.T[f['locals'][0]].get('n', '')) and any(
                re.search(r'walk::Entry$', B.T[t].get('n', '')) for t in f['locals'][1:f['argc'] + 1]):
            out.append(Job('missing holes', f, which='bin', judge=missing_judge, cfg=dict(K=4, elem_total=2)))
            if ctx.tier == 'thorough':
                out.append(Job('missing holes (3 rows)', f, which='bin', judge=missing_judge, cfg=dict(K=5, elem_total=3)))
    return out
