"""Dimension inference over the value graph: every number gets an unknown unit (powers of `voxel height` and `world length`; horizontal
cells count as plain numbers, since they index the grid); additions, comparisons and joins equate units, products add them. The linear
system is solved while it is built; a contradiction is a place where two units are mixed."""
from fractions import Fraction
from lib import *
V0 = (Fraction(0), Fraction(0))
CELL, VOX, WORLD = (0, 0), (1, 0), (0, 1)
SAME1 = {'neg', 'abs', 'floor', 'ceil', 'round', 'trunc', 'tofloat', 'ncast', 'widen'}
class Sys:
    def __init__(s): s.sol = {}; s.n = 0; s.bad = []; s.eqs = 0; s.why = None
    def fresh(s): s.n += 1; return ({s.n: Fraction(1)}, V0)
    def red(s, e):
        d, c = e
        out = {}; c = list(c); work = list(d.items()); done = True
        while work:
            v, k = work.pop()
            if v in s.sol:
                done = False
                d2, c2 = s.sol[v]
                for w, k2 in d2.items(): work.append((w, k * k2))
                c[0] += k * c2[0]; c[1] += k * c2[1]
            else:
                out[v] = out.get(v, 0) + k
                if not out[v]: del out[v]
        return (out, tuple(c))
    def lin(s, a, ka, b, kb):
        d = dict()
        for (x, k) in ((a, ka), (b, kb)):
            for v, y in x[0].items(): d[v] = d.get(v, 0) + k * y
        return ({v: y for v, y in d.items() if y}, tuple(ka * p + kb * q for p, q in zip(a[1], b[1])))
    def equal(s, a, b, why):
        s.eqs += 1
        d, c = s.red(s.lin(a, 1, b, -1))
        if not d:
            if any(c): s.bad.append((why, s.red(a), s.red(b)))
            return
        v = max(d); k = d.pop(v)
        s.sol[v] = ({w: -y / k for w, y in d.items()}, tuple(-x / k for x in c))
def unit(*x): return ({}, tuple(Fraction(y) for y in x))
def named(u):
    d, c = u
    if d: return '?'
    t = ['%s^%s' % (n, x) if x != 1 else n for n, x in zip(('voxel height', 'world length'), c) if x]
    return '*'.join(t) or 'number (or horizontal cells)'
class Infer:
    def __init__(s, q, anchor):
        s.q = q; s.S = Sys(); s.memo = {}; s.todo = []; s.anchor = anchor; s.anchored = {}; s.seen = set(); s.sites = 0
    def var(s, n, p): 
        u = s.S.fresh(); s.memo[(n, p)] = u; return u
    def tie(s, u, x, p, what):
        if lit(x): return
        s.todo.append((u, x, p, what))
    def names(s, n, p):
        out = list(p)
        while True:
            if n.op == 'phi': return [x for x in root(n.a[1][0]) + list(n.a[1][1:]) if isinstance(x, str)] + out
            if n.op == 'fld': out = [n.a[1]] + out; n = n.a[0]
            elif n.op in ('elem',): out = ['[]'] + out; n = n.a[0]
            elif n.op in ('sel', 'psel', 'deref', 'store', 'upd', 'slice'): n = n.a[0]
            elif n.op == 'lift': out = list(n.a[1]) + out; n = n.a[0]
            else: return out or (['arg%d' % n.a[1]] if n.op == 'param' else [])
    def outer(s, n):
        """does the value live in what the function was given?"""
        while True:
            if n.op == 'phi': return not isinstance(n.a[1][0], int) or 1 <= n.a[1][0] <= s.q.f.argc
            if n.op in ('param', 'deref'): return True
            if n.op in ('fld', 'elem', 'sel', 'psel', 'store', 'upd', 'slice', 'lift'): n = n.a[0]
            else: return False
    def U(s, n, p=()):
        k = (n, p)
        if k in s.memo: return s.memo[k]
        op, a = n.op, n.a; S = s.S
        if lit(n): return S.fresh()
        if op == 'fld': return s.U(a[0], (a[1],) + p)
        if op == 'elem': return s.U(a[0], ('[]',) + p)
        if op in ('sel', 'psel', 'slice'): return s.U(a[0], p)
        if op == 'lift': return s.U(a[0], tuple(a[1]) + p)
        if op == 'fillv' and not lit(a[0]): return s.U(a[0], p)
        if op == 'upd':
            for r, x in a[1]:
                if p[:len(r)] == tuple(r): return s.U(x, p[len(r):])
            return s.U(a[0], p)
        if op == 'agg' and p and a[2] and p[0].startswith(str(a[2]) + '.') and p[0][len(a[2]) + 1:] in a[3]: return s.U(a[4][a[3].index(p[0][len(a[2]) + 1:])], p[1:])
        if op == 'agg' and p and p[0] in a[3]: return s.U(a[4][a[3].index(p[0])], p[1:])
        if op == 'vecfill' and p and p[0] == '[]' and not lit(a[0]): return s.U(a[0], p[1:])
        u = s.var(n, p)
        if op in ('deref', 'param', 'call', 'after', 'phi', 'static') :
            w = s.anchor(s.names(n, p), s.outer(n))
            if w is not None:
                s.anchored.setdefault(w, set()).add('.'.join(x for x in s.names(n, p) if x not in ('[]', '*', '0'))); S.equal(u, unit(*w), ('anchor', n))
        if op == 'deref' and a[0].op in ('ref', 'sref'): pass
        elif op == 'phi':
            vs = [v for b, v in sorted(s.q.g.phi_args(n).items())]
            # `if d > 0 { t /= d }`: nothing to divide by, hence nothing to divide
            over = [v.a[0] for v in vs if v.op in ('fdiv', 'div', 'idiv')]
            for v in vs:
                if not any(same(v, w) for w in over): s.tie(u, v, p, ('join', n))
        elif op == 'store': s.tie(u, a[0], p, ('store', n)); s.tie(u, a[2], p, ('store', n))
        elif op == 'vupd': s.tie(u, a[0], p, ('store', n)); s.tie(u, a[2], (), ('store', n))
        elif op == 'after' and hasattr(a[3], 'op'):
            # a slice handed out: the value written back is an element, the old one its container
            box = a[3].op in ('vecfill', 'vec0', 'arr', 'slice') or a[3].op == 'upd' and any(r[0] == '[]' for r, x in a[3].a[1])
            if box and p[:1] not in (('[]',), ('#len',)): s.tie(u, a[3], ('[]',) + p, ('after', n))
            elif a[3].op in ('phi', 'after', 'upd', 'vecfill', 'vec0', 'arr', 'agg', 'store'): s.tie(u, a[3], p, ('after', n))
        elif op == 'arr' and p and p[0] == '[]':
            for x in a: s.tie(u, x, p[1:], ('array', n))
        elif p: pass
        elif op in ('add', 'sub', 'min', 'max', 'absdiff'): 
            s.sites += 1
            for x in a[:2]:
                # a cell height which is added to a length is the height of one voxel
                if s.names(x, ())[-1:] == ['cell_height'] and x.op in ('fld', 'phi', 'deref'): S.equal(u, unit(0, 1), (op, n))
                else: s.tie(u, x, (), (op, n))
        elif op in SAME1: s.tie(u, a[0], (), (op, n))
        elif op == 'cast': s.tie(u, a[1], (), (op, n))
        elif op in ('toint', 'tryint'): s.tie(u, a[1] if hasattr(a[1], 'op') else a[0], (), (op, n))
        elif op == 'sat' and a[0] in ('add', 'sub'):
            for x in a[1:3]: s.tie(u, x, (), (op, n))
        elif op in ('mul', 'fdiv', 'div', 'idiv'):
            s.sites += 1
            f = [unit(0, 0) if lit(x) else s.U(x) for x in a[:2]]
            S.equal(u, S.lin(f[0], 1, f[1], 1 if op == 'mul' else -1), (op, n))
        elif op == 'recip': S.equal(u, S.lin(s.U(a[0]), -1, unit(0, 0), 1), (op, n))
        elif op == 'sqrt': S.equal(u, S.lin(s.U(a[0]), Fraction(1, 2), unit(0, 0), 1), (op, n))
        return u
    def drain(s):
        while s.todo:
            u, x, p, what = s.todo.pop(0)
            s.S.equal(u, s.U(x, p), what)
    def run(s):
        q = s.q; st = []
        def kids(x):
            if hasattr(x, 'op') and hasattr(x, 'a'): yield x
            elif isinstance(x, (tuple, list)):
                for y in x: yield from kids(y)
        for e in q.events(): st += list(kids(e.a))
        for b in range(q.n):
            if q.live[b] and q.f.blocks[b].term[0] == 'switch': st += list(kids(q.g.cond[b]))
        st.reverse(); later = []
        while st:
            n = st.pop()
            if n in s.seen: continue
            s.seen.add(n)
            ks = list(kids(n.a))
            if n.op == 'phi': ks += list(q.g.phi_args(n).values())
            st += reversed(ks)
            if n.op in ('add', 'sub', 'mul', 'fdiv', 'div', 'idiv', 'min', 'max', 'sqrt', 'recip'): s.U(n)
            elif n.op in ('lt', 'flt', 'eq') and not lit(n.a[0]) and not lit(n.a[1]) and number(n.a[0]) and number(n.a[1]):
                s.sites += 1; later.append(n)
            s.drain()
        # comparisons last: they say nothing about where a value comes from, so a contradiction shows at the comparison itself
        for n in later:
            u, v = s.U(n.a[0]), s.U(n.a[1]); s.drain()
            s.S.equal(u, v, ('compare', n))
        for e in q.events('store'):
            p = tuple(x for x in e.a[0][1:])
            full = [x for x in root(e.a[0][0]) + list(p) if isinstance(x, str)]
            for rel in leaves_of(e.a[2]):
                w = s.anchor(full + list(rel), False)
                if w is not None: s.S.equal(s.U(e.a[2], rel) if not lit(fldp(e.a[2], rel)) else unit(*w), unit(*w), ('stored in .' + '.'.join(full + list(rel)), e.a[2]))
            s.drain()
        return s
def fldp(v, rel):
    for f in rel: v = fld(v, f) if f != '[]' else mk('elem', v, mk('any', 'i'))
    return v
def leaves_of(v, d=0):
    if v.op == 'agg' and d < 6:
        for f, x in zip(v.a[3], v.a[4]):
            for r in leaves_of(x, d + 1): yield (f,) + r
    elif v.op == 'upd':
        for r, x in v.a[1]: yield tuple(r)
        yield from leaves_of(v.a[0], d + 1)
    else: yield ()
def root(r):
    """field names on the way to a memory root"""
    if isinstance(r, tuple) and len(r) == 2 and r[0] == 'O' and hasattr(r[1], 'op'):
        n = r[1]; out = []
        while True:
            if n.op == 'fld': out = [n.a[1]] + out; n = n.a[0]
            elif n.op in ('deref', 'elem', 'sel'): n = n.a[0]
            elif n.op == 'ref': return root(n.a[0][0]) + list(n.a[0][1:]) + out
            else: return out
    return []
def lit(n): return n.op in ('fillv', 'vecfill') and lit(n.a[0]) or n.op in ('const', 'undef', 'vec0', 'constdef', 'any', 'default') or (n.op in ('neg', 'tofloat') and lit(n.a[0])) or (n.op in ('add', 'sub', 'mul', 'fdiv', 'cast') and all(lit(x) for x in n.a if hasattr(x, 'op')))
def number(n): return n.op not in ('discr', 'lt', 'flt', 'eq', 'not', 'agg', 'ref', 'sref')
