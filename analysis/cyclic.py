"""Walks over the edges of closed polygons: which loops pair position t with its cyclic neighbour, and with respect to which count."""
from lib import *
import seqs
FAM = {'#len'}
def canon(q, n):
    """counts that are only looked at (never changed) stand for themselves"""
    return nf(n)
def positions(q, h):
    """what counts the passes of loop h: phis that start at 0 and advance by one in (almost) every pass"""
    out = []
    for x in q.header_phis(h):
        if x.a[1][-1] in ('#len', '[]'): continue
        i = q.induction(x)
        if i is not None and i[1] == 1: out.append(x); continue
        en, bk = q.entry_args(x)
        d = {str(poly_diff(v, x)) for v in bk}
        if bk and d <= {'0', '1'} and '1' in d: out.append(x)
    return out
def poly_diff(a, b):
    d = {k: v for k, v in padd(poly(a), poly(b), -1).items() if v}
    return int(d.get((), 0)) if not set(d) - {()} and all(v == int(v) for v in d.values()) else None
def nodes_in(q, h):
    seen = {}
    for e in q.events():
        c = q.chain(e.blk)
        if h is not None and h not in c: continue
        for n in e_nodes(e):
            for y in walk_nodes(n):
                seen.setdefault(id(y), (y, e))
    return seen.values()
def e_nodes(e):
    def fl(x):
        if isinstance(x, (tuple, list)):
            for z in x: yield from fl(z)
        elif hasattr(x, 'op'): yield nf(x)
    yield from fl(e.a)
class Step:
    """in loop h with position x: a neighbour of x (+1 or -1), cyclic with respect to n"""
    def __init__(s, h, x, d, n, node, how): s.h, s.x, s.d, s.n, s.node, s.how = h, x, d, n, node, how
    def __repr__(s): return 'loop %s %s%+d mod %s (%s)' % (s.h, shown(s.x), s.d, shown(s.n)[:60] if s.n is not None else '?', s.how if isinstance(s.how, str) else s.how[0])
def rem_step(y, x):
    """y = rem(num, n): (offset from x, n)"""
    n = nf(y.a[1]); k = poly_diff(y.a[0], x)
    if k is not None: return k, n
    k = poly_diff(from_poly(padd(poly(y.a[0]), poly(n), -1)), x)
    return (k, n) if k is not None else (None, n)
def steps(q, h):
    out = []
    pos = positions(q, h)
    seen = set()
    for x in pos:
        for y, e in nodes_in(q, h):
            if y.op == 'rem':
                k, n = rem_step(y, x)
                if k is not None and (id(y), id(x)) not in seen:
                    seen.add((id(y), id(x))); out.append(Step(h, x, k, n, y, 'rem'))
        for j in q.header_phis(h):
            if j is x: continue
            en, bk = q.entry_args(j)
            if bk and all(same(v, x) for v in bk) and len(en) >= 1 and all(same(v, en[0]) for v in en):
                n = nf(from_poly(padd(poly(en[0]), pconst(1))))
                out.append(Step(h, x, -1, n, j, 'trailing'))
        for y, e in nodes_in(q, h):
            if y.op != 'phi' or y.a[0] in q.loops or not q.cases(y): continue
            if (id(y), id(x)) in seen: continue
            seen.add((id(y), id(x)))
            s = wrapped(q, h, x, y)
            if s: out.append(s)
    return out
def wrapped(q, h, x, y):
    """one of two values, chosen by where x stands: f(x+1) or f(0), f(x-1) or f(n-1)"""
    cs = [(c, nf(v)) for c, v in q.cases(y)]
    if len(cs) != 2: return None
    for (c1, v1), (c2, v2) in (cs, cs[::-1]):
        if not any(z is x for z in walk_nodes(v1)) or any(z is x for z in walk_nodes(v2)): continue
        if same(subst(v1, {x: const(-1)}), v2) and not same(v1, v2): return Step(h, x, 1, None, y, ('wrap', c1, c2))
        k = poly_diff(v1, x)
        if k == -1:
            n = nf(from_poly(padd(poly(v2), pconst(1))))
            return Step(h, x, -1, n, y, ('wrap', c1, c2))
    return None

# ---------------------------------------------------------------- is a walk closed?
def equals(q, h, x):
    """header values that always equal x"""
    i = q.induction(x); out = [x]
    if i is None: return out
    for y in q.header_phis(h):
        j = q.induction(y)
        if y is not x and j is not None and j[1] == i[1] and same(j[0], i[0]): out.append(y)
    return out
def starts(q, x):
    i = q.induction(x)
    if i is not None: return nf(i[0])
    en, _ = q.entry_args(x)
    return nf(en[0]) if en and all(same(v, en[0]) for v in en) else None
def outer(n, xs):
    """does a comparison look at the position itself (not only at what stands there)?"""
    todo = [n]; seen = set()
    while todo:
        y = todo.pop()
        if id(y) in seen: continue
        seen.add(id(y))
        if any(y is x for x in xs): return True
        if y.op in ('elem', 'sel', 'call', 'slice', 'after', 'rem', 'deref', 'fld', 'vsel'): continue
        if y.op == 'phi': continue
        def fl(v):
            for z in v:
                if isinstance(z, (tuple, list)): fl(z)
                elif hasattr(z, 'op'): todo.append(nf(z))
        fl(y.a)
        if y.op in ('poly', 'lin'): continue
    return False
def bounds(q, h, x):
    out = []
    for y in equals(q, h, x):
        for b in sorted(q.loops[h]):
            u = q.upper(y, b)
            if u is not None and not any(same(u, z) for z in out): out.append(nf(u))
    return out
def over(q, h, x, n, first=0):
    """positions x of loop h run over exactly 0..n unless something other than the position ends it -> None | why not"""
    a = starts(q, x)
    if a is None or num(a) != first: return 'it starts at %s' % (shown(a)[:60] if a is not None else '?')
    xs = equals(q, h, x); bs = bounds(q, h, x)
    if not any(same(b, n) for b in bs): return 'it runs to %s while neighbours are taken modulo %s' % (', '.join(shown(b)[:60] for b in bs) or '?', shown(n)[:60])
    inside = [q.formula(mk('lt', y, n)) for y in xs]
    for b, s in seqs.ways_out(q, h):
        c = B.AND(q.facts(b), q.edge(b, s))
        if unsat(c) or any(implies(c, B.NOT(i)) for i in inside) or seqs.dead_end(q, s): continue
        e = q.edge(b, s)
        if any(outer(z, xs) for z in atom_nodes(e)): return 'it ends early when %s' % showf(e)[:120]
    return None
def atom_nodes(f):
    for at in fatoms(f):
        for z in (at if isinstance(at, (tuple, list)) else (at,)):
            if hasattr(z, 'op'): yield nf(z)
            elif isinstance(z, (tuple, list)):
                for w in z:
                    if hasattr(w, 'op'): yield nf(w)
def more(q, h, x):
    """formula: the pass at x goes on (nothing ends the loop before its body)"""
    e = False
    for b, s in seqs.ways_out(q, h): e = B.OR(e, B.AND(q.guard(b, h), q.edge(b, s)))
    return B.NOT(e)
def closed(q, s):
    h, x = s.h, s.x
    if s.how in ('rem', 'trailing'): return over(q, h, x, s.n)
    _, cu, co = s.how
    a = starts(q, x)
    if a is None or num(a) != 0: return 'it starts at %s' % (shown(a)[:60] if a is not None else '?')
    nx = from_poly(padd(poly(x), pconst(1)))
    bs = bounds(q, h, x)
    if s.d == -1:
        if not any(same(s.n, b) for b in bs): return 'it wraps to %s - 1, but runs to %s' % (shown(s.n)[:50], [shown(b)[:50] for b in bs])
        z = q.formula(V.eq(x, const(0)))
        f = q.facts(s.node.a[0])
        return None if implies(B.AND(f, co), z) and implies(B.AND(f, cu), B.NOT(z)) else 'it wraps when %s' % showf(co)[:100]
    f = q.facts(s.node.a[0])
    go = more(q, h, x); nxt = q.fsubst(go, {x: nx})
    if implies(B.AND(f, co), B.NOT(nxt)) and implies(B.AND(f, cu), nxt): return None
    for b in bs:
        i = B.AND(q.formula(mk('lt', x, b)), B.NOT(q.formula(V.eq(nx, b))))       # (x is within bounds here, so x+1 is unless it is the bound)
        if implies(f, q.formula(mk('lt', x, b))) and implies(B.AND(f, co), B.NOT(i)) and implies(B.AND(f, cu), i): return over(q, h, x, b)
        k = counted(q, b, nx)
        if k is not None:
            g = B.AND(f, B.NOT(B.AND(q.formula(mk('lt', nx, k[1])), B.NOT(k[0]))))
            if implies(B.AND(f, co), g) and not unsat(B.AND(f, cu)) and implies(B.AND(f, cu), B.NOT(g)): return over(q, h, x, b)
        i = q.formula(mk('lt', nx, b))
        if implies(B.AND(f, co), B.NOT(i)) and implies(B.AND(f, cu), i): return over(q, h, x, b)
    return 'it goes on to the next corner when %s, but the walk itself when %s' % (showf(cu)[:150], showf(nxt)[:150])

def reads(n): return any(y.op in ('elem', 'sel') for y in walk_nodes(n))
def counted(q, b, t):
    """b = how many entries stand before the first one marked as unused, n at most -> (is entry t marked?, n)"""
    if b.op != 'phi' or not q.cases(b): return None
    n, found = None, None
    for c, v in q.cases(b):
        v = nf(v); h = v.a[0] if v.op == 'phi' and v.a[0] in q.loops else None
        pos = [x for x in q.header_phis(h) if q.induction(x) is not None and q.induction(x)[1] == 1 and num(q.induction(x)[0]) == 0] if h is not None else []
        if any(v is x for x in pos):
            if found is not None: return None
            m = seqs.counters(q, h, t); F = c
            for at in fatoms(c):
                if not any(reads(z) for z in atom_nodes_of(at)): F = B.OR(B.restrict(F, {at: True}), B.restrict(F, {at: False}))
            found = q.fsubst(F, m)
        elif n is None or same(n, v): n = v
        else: return None
    return (found, n) if found is not None and n is not None else None
def atom_nodes_of(at):
    for z in (at if isinstance(at, (tuple, list)) else (at,)):
        if hasattr(z, 'op'): yield nf(z)
        elif isinstance(z, (tuple, list)): yield from atom_nodes_of(z)
