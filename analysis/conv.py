"""Conversions between a type and its transmitted form: results case by case, composition, identity."""
from lib import *
def leaves(q, v, cond=True, depth=8):
    """v with every branch it contains spelled out (not inside calls) -> [(condition, value)]"""
    out = []
    def phi_in(x, top=True):
        if x.op == 'phi': return x if q.cases(x) else None
        if x.op == 'agg':
            for y in x.a[4]:
                r = phi_in(y)
                if r is not None: return r
        return None
    def go(c, x, d):
        if unsat(c) or c is False: return
        p = phi_in(x) if d else None
        if p is None: out.append((c, x)); return
        for g, y in q.cases(p): go(B.AND(c, g), subst(x, {p: y}), d - 1)
    go(cond, nf(v), depth)
    return out
def top(q, v, cond=True, depth=8):
    """only the outermost branches"""
    v = nf(v)
    cs = q.cases(v) if v.op == 'phi' and depth else None
    if not cs: return [(cond, v)]
    return [z for g, y in cs for z in top(q, y, B.AND(cond, g), depth - 1)]
def results(q, wrap=None):
    """returned values, without the given wrapper variant -> [(condition, value, event)]"""
    out = []
    for e in q.events('ret'):
        for c, v in top(q, e.a[0], q.facts(e.blk)):
            if wrap:
                if v.op == 'agg' and v.a[2] == wrap: out.append((c, nf(v.a[4][0]), e))
                elif v.op == 'agg' and v.a[2] is not None: continue
                else: out.append((c, v, e))
            else: out.append((c, v, e))
    return out
def fields_of(x, p):
    """names of the fields of parameter p a value mentions"""
    s = set()
    def go(n, seen):
        if not hasattr(n, 'op') or n in seen: return
        seen.add(n)
        if n.op == 'fld' and n.a[0] is p: s.add(n.a[1].split('.')[0]); return
        if n.op in ('sel',) and n.a[0] is p: s.add(str(n.a[1])); return
        if n is p: s.add('*'); return
        for y in n.a: arg(y, seen)
    def arg(y, seen):
        if isinstance(y, tuple):
            for z in y: arg(z, seen)
        else: go(y, seen)
    go(x, set())
    return s
def mentioned(c, p):
    s = set()
    for a in fatoms(c) if not isinstance(c, bool) else []: s |= fields_of(a, p)
    return s
def variant(q, src, adt, var):
    """formula: src is that variant"""
    d = FL.discr_of(adt, var)
    return q.formula(V.eq(V.discr(src, adt), const(d)))
def identity(q, cond, v, src, drop=(), path=''):
    """is v the same value as src whenever cond holds? -> list of differences"""
    v = nf(v)
    if unsat(cond): return []
    if same(v, src): return []
    if v.op == 'phi' and q.cases(v):
        return [d for g, y in q.cases(v) for d in identity(q, B.AND(cond, g), y, src, drop, path)]
    if v.op == 'agg':
        kind, adt, var, names, vals = v.a
        bad = []; pre = ''
        if var is not None:
            if not implies(cond, variant(q, src, adt, var)): return ['%s becomes %s%s' % (path or 'the value', var, '' if cond is True else ' when ' + showf(cond)[:160])]
            pre = var + '.'
        for n, x in zip(names, vals):
            if n in drop: continue
            bad += identity(q, cond, x, fld(src, pre + n), drop, path + '.' + pre + n)
        return bad
    return ['%s becomes %s' % (path or 'the value', shown(v)[:120])]
def compose(qF, fields, qG, param, value):
    """value (of G, over fields of its parameter) with the fields replaced by what F put there -> [(condition, value)]"""
    use = {}
    vs = leaves(qG, value)
    names = sorted({n for c, v in vs for n in fields_of(v, param) | mentioned(c, param)})
    out = [(c, v, True) for c, v in vs]
    for n in names:
        if n not in fields: continue
        nx = []
        for cF, vF in leaves(qF, fields[n]):
            m = {fld(param, n): vF}
            for c, v, k in out:
                c2 = c if isinstance(c, bool) else qG.fsubst(c, m)
                if c2 is False: continue
                nx.append((c2, subst(v, m), B.AND(k, cF)))
        out = nx
    return names, [(B.AND(c, k), v) for c, v, k in out if B.AND(c, k) is not False]
