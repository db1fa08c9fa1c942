"""C33: volumes"""
from lib import *
from seqs import *
from checks.c31 import atoms_of
EXPLAIN = ('Marking a volume is described on the value graph of the inlined MIR: which cells and spans its loops visit, with the footprint\'s ends traced back to a minimum and a maximum over all corners; under which '
           'condition a span is marked, compared as a formula with "walkable, height in range, centre of the cell inside"; and the even-odd test, whose toggle condition is compared with the one for a crossed edge.')
R_FOOT = 'all cells under the volume are visited'
R_SPAN = 'all spans of a cell are visited'
R_WHEN = 'a span is marked exactly if it is walkable, in the height range and inside'
R_AREA = 'a marked span gets the area of the volume'
R_IN = 'a point is inside if an odd number of edges is crossed'
def run(P, R):
    p = find1(P, R, 'mark_convex_poly_area', 'CompactHeightfield', 'rerecast')
    if not p: return
    q = analyse(P, p); volume(R, q)
    R.floor(R_FOOT, 8); R.floor(R_SPAN, 2); R.floor(R_WHEN, 2); R.floor(R_AREA, 1); R.floor(R_IN, 5)
def path(n, s):
    for x in s.split('.'): n = fld(n, x)
    return nf(n)
def minus(a, b): return padd(poly(a), poly(b), -1)
def sets(q, n, op):
    """the values n is the least (greatest) of"""
    n = nf(n)
    cs = q.cases(n) if n.op == 'phi' and n.a[0] not in q.loops else None
    if cs and len(cs) == 2:
        (c, a), (d, b) = cs
        le = lambda x, y: B.NOT(q.formula(V.lt(nf(y), nf(x), False)))
        if op == 'max': c, d = d, c         # c: the first is the smaller one
        if implies(c, le(a, b)) and implies(d, le(b, a)): return sets(q, a, op) + sets(q, b, op)
        return [n]
    return [nf(x) for x in (n.a[0] if isinstance(n.a[0], tuple) else n.a)] if n.op in (op, op + 's') else [n]
def crossing_formula(F):
    """`a != b` over truth values as exclusive or"""
    if isinstance(F, bool): return F
    for a in atoms_of(F):
        G = None
        if a.op == 'eq0':
            m = poly(a.a[0])
            t = [(list(k), c) for k, c in m.items()]
            if len(t) == 2 and all(len(k) == 1 and k[0][1] == 1 and k[0][0].op in ('flt0', 'fle0', 'not') for k, c in t) and t[0][1] == -t[1][1]:
                x, y = (B.var(k[0][0]) for k, c in t)
                G = B.NOT(B.OR(B.AND(x, B.NOT(y)), B.AND(B.NOT(x), y)))
        elif a.op in ('xor', 'bitxor', 'ne'):
            x, y = (B.var(nf(z)) for z in a.a[:2]); G = B.OR(B.AND(x, B.NOT(y)), B.AND(B.NOT(x), y))
        if G is not None:
            F = B.OR(B.AND(G, B.restrict(F, {a: True})), B.AND(B.NOT(G), B.restrict(F, {a: False})))
    return F
def volume(R, q):
    slf = mk('deref', mk('param', q.g.uid, 1)); vol = mk('param', q.g.uid, 2)
    me = ('O', mk('param', q.g.uid, 1)); verts = path(vol, 'vertices'); n = nf(fld(verts, '#len'))
    st = [e for e in q.events('store') if isinstance(e.a[0], tuple) and e.a[0][:2] == (me, 'areas')]
    if not R.check(len(st) == 1 and st[0].a[1], R_AREA, 'one place', 'areas are written in %d places' % len(st)): return
    e = st[0]; i = nf(e.a[1][0]); ch = q.chain(e.blk)
    R.check(same(e.a[2], path(vol, 'area')) or same(e.a[2], path(vol, 'area.0')), R_AREA, 'value', 'a span gets %s' % shown(nf(e.a[2]))[:150])
    if not R.check(len(ch) == 3, R_FOOT, 'loops', 'spans are marked in %d nested loops, expected columns, rows and spans' % len(ch)): return
    L = [passes(q, h) for h in ch]
    for h, l in zip(ch, L):
        if not R.check(l[0] is not None, R_FOOT if h != ch[0] else R_SPAN, 'loop of %s' % ('spans' if h == ch[0] else 'cells'), 'the loop does not run over a range: %s' % l[3]): return
    s, s0, s1, _ = L[0]
    w, h = path(slf, 'width'), path(slf, 'height'); cs, chh = path(slf, 'cell_size'), path(slf, 'cell_height')
    axis = {}
    for x, a, b, _ in L[1:]:
        last = from_poly(padd(poly(b), pconst(-1)))
        for ax, size in (('x', w), ('z', h)):
            if any(same(y, from_poly(padd(poly(size), pconst(-1)))) for y in sets(q, last, 'min')): axis[ax] = (x, a, last, size)
    if not R.check(set(axis) == {'x', 'z'}, R_FOOT, 'axes', 'the loops do not end with the last column and the last row of the grid'): return
    X, Z = axis['x'][0], axis['z'][0]
    cell = nf(mk('elem', path(slf, 'cells'), from_poly(padd(pmul(poly(w), poly(Z)), poly(X)))))
    R.check(same(s0, fld(cell, 'index')), R_SPAN, 'first', 'the first span visited is %s' % shown(s0)[:200])
    R.check(same(s1, from_poly(padd(poly(fld(cell, 'index')), poly(fld(cell, 'count'))))), R_SPAN, 'last', 'the spans visited end at %s' % shown(s1)[:200])
    R.check(same(i, s), R_SPAN, 'marked', 'the span marked is %s' % shown(i)[:200])
    ints = {}
    low = lambda v, base, size: mk('toint', 'i32', nf(from_poly(pmul(minus(v, base), {((size, -1),): Fraction(1)}))))
    for ax, comp in (('x', 'x'), ('z', 'y')):
        pos, first, last, size = axis[ax]; org = path(slf, 'aabb.min.' + ax)
        for end, n_, op, own in (('first', first, 'max', const(0)), ('last', last, 'min', from_poly(padd(poly(size), pconst(-1))))):
            ys = [y for y in sets(q, n_, op) if not same(y, own)]
            if len(ys) == len(sets(q, n_, op)): R.fail(R_FOOT, '%s %s' % (ax, end), 'the footprint is not kept on the grid: %s' % shown(n_)[:200]); continue
            R.ok(R_FOOT, '%s %s on the grid' % (ax, end))
            if not ys: R.ok(R_FOOT, '%s %s' % (ax, end)); continue       # the whole grid
            y = ys[0]; v = None
            if len(ys) == 1 and y.op == 'toint':
                for f in walk_nodes(y):
                    if f.op == 'phi' and fold(q, f, 'min' if end == 'first' else 'max', verts, comp, n) and same(y, nf(low(f, org, cs))): v = f
            R.check(v is not None, R_FOOT, '%s %s' % (ax, end), 'the footprint ends at %s, which is not the cell of the %s corner' % (shown(y, 8)[:250], 'lowest' if end == 'first' else 'highest'))
            ints[ax, end] = y
    # ---- the condition
    F = q.guard(e.blk, q.f.entry)
    def fold_exit(a):
        return any(f.op == 'phi' and f.a[0] in q.loops and f.a[0] not in ch and q.induction(f) for f in walk_nodes(a)) and a.op in ('le0', 'eq0')
    F = B.exists(F, [a for a in atoms_of(F) if fold_exit(a)])
    ins = [a for a in atoms_of(F) if a.op == 'phi' and a.a[0] in q.loops and a.a[0] not in ch]
    if not R.check(ins, R_IN, 'asked', 'whether a span is marked does not depend on the corners'): return
    y = path(mk('elem', path(slf, 'spans'), s), 'y')
    tmin = nf(low(path(vol, 'min_y'), path(slf, 'aabb.min.y'), chh)); tmax = nf(low(path(vol, 'max_y'), path(slf, 'aabb.min.y'), chh))
    old = [x for a in atoms_of(F) for x in walk_nodes(a) if x.op in ('sel', 'elem') and 'areas' in shown(x) and same(x.a[1][-1] if x.op == 'sel' else x.a[1], s)]
    if not R.check(len(set(old)) >= 1, R_WHEN, 'walkable', 'spans are marked without a look at their area'): return
    zero = False
    for o in set(old): zero = B.OR(zero, q.formula(V.eq(nf(fld(o, '0')), const(0))))
    lt = lambda a, b: q.formula(V.lt(nf(a), nf(b), False))
    ranges = True
    for x, a, b, _ in L: ranges = B.AND(ranges, lt(x, b))
    core = B.AND(B.AND(B.NOT(zero), B.AND(B.NOT(lt(y, tmin)), B.NOT(lt(tmax, y)))), ranges)
    for inside in ins: core = B.AND(core, q.formula(inside))
    hit = B.NOT(q.formula(V.eq(n, const(0))))
    for (ax, end), t in ints.items():
        hit = B.AND(hit, B.NOT(lt(axis[ax][3], from_poly(padd(poly(t), pconst(1))))) if end == 'first' else B.NOT(lt(t, const(0))))
    for (end, t) in (('min', tmin), ('max', tmax)): pass
    R.check(implies(F, core), R_WHEN, 'only then', 'a span is also marked when %s' % showf(B.AND(F, B.NOT(core)))[:300])
    R.check(implies(B.AND(core, hit), F), R_WHEN, 'always then', 'a span is not marked when %s' % showf(B.AND(B.AND(core, hit), B.NOT(F)))[:300])
    for inside in ins: evenodd(R, q, inside, slf, verts, n, X, Z)
def evenodd(R, q, inside, slf, verts, n, X, Z):
    cs = path(slf, 'cell_size')
    h = inside.a[0]; x, a, b, why = passes(q, h)
    if not R.check(x is not None and num(a) == 0 and same(b, n), R_IN, 'all edges', 'not all edges are looked at: %s' % (why or 'from %s to %s' % (shown(a), shown(b)))): return
    en, bk = q.entry_args(inside)
    f0 = [nf(z) for z in en]
    R.check(len(f0) == 1 and q.formula(f0[0]) is False, R_IN, 'starts outside', 'the test starts with %s' % [shown(z) for z in f0])
    if not R.check(len(bk) == 1, R_IN, 'one way round', 'the loop over the edges goes round in %d ways' % len(bk)): return
    nxt = q.formula(nf(bk[0])); own = q.formula(inside)
    nb = nf(bk[0])
    if nb.op == 'phi' and nb.a[0] != h and q.cases(nb):
        nxt = False
        for c, v in q.cases(nb): nxt = B.OR(nxt, B.AND(c, q.formula(nf(v))))
    nxt = crossing_formula(nxt)
    # toggled iff nxt differs from own
    on, off = B.restrict(nxt, {inside: True}), B.restrict(nxt, {inside: False})
    R.check(equiv(on, B.NOT(off)), R_IN, 'toggled', 'crossing an edge does not turn inside and outside round: from inside it leads to %s, from outside to %s' % (showf(on)[:120], showf(off)[:120]))
    cross = off
    J = mk('sym', 'previous'); m = {f: x for f in q.header_phis(h) if f is not x and same(subst(f, counters(q, h, T_)), T_)}
    for f in q.header_phis(h):
        if before(q, f, x, n, h): m[f] = J
        en, bk = q.entry_args(f); at = mk('elem', verts, from_poly(padd(poly(n), pconst(-1)))); here = mk('elem', verts, x)
        for get in (lambda v: v, lambda v: fld(v, 'x'), lambda v: fld(v, 'y')):
            if len(en) == 1 and same(en[0], get(at)) and bk and all(same(z, get(here)) for z in bk): m[f] = get(mk('elem', verts, J))
    for z0 in atoms_of(cross):
        for z in walk_nodes(z0):
            if z.op == 'elem' and same(z.a[0], verts) and z.a[1] not in m and before(q, nf(z.a[1]), x, n, h): m[nf(z.a[1])] = J
    cross = crossing_formula(q.fsubst(cross, m))
    js = {nf(z.a[1]) for z0 in atoms_of(cross) for z in walk_nodes(z0) if z.op == 'elem' and same(z.a[0], verts)} - {x}
    if not R.check(js == {J}, R_IN, 'edge', 'a corner is not looked at together with the one before it: %s' % sorted(shown(j) for j in js)): return
    j = J
    vi, vj = nf(mk('elem', verts, x)), nf(mk('elem', verts, j)); xi, yi, xj, yj = (nf(fld(*t)) for t in ((vi, 'x'), (vi, 'y'), (vj, 'x'), (vj, 'y')))
    half = lambda pos, org: from_poly(padd(poly(org), pmul(padd(poly(pos), pconst(Fraction(1, 2))), poly(cs))))
    px, py = half(X, path(slf, 'aabb.min.x')), half(Z, path(slf, 'aabb.min.z'))
    fl = lambda a, b: q.formula(V.lt(nf(a), nf(b), True))
    A, C = fl(py, yi), fl(py, yj)
    sl = from_poly(padd(pmul(pmul(minus(xj, xi), minus(py, yi)), patom(from_poly(minus(yj, yi)), -1)), poly(xi)))
    want = B.AND(B.OR(B.AND(A, B.NOT(C)), B.AND(B.NOT(A), C)), fl(px, sl))
    R.check(equiv(cross, want), R_IN, 'crossed', 'an edge counts as crossed by the ray from the centre of the cell when %s' % showf(cross, 6)[:400])
def fold(q, f, op, verts, comp, n):
    """f is the least (greatest) such coordinate of all corners"""
    h = f.a[0]
    if h not in q.loops or f.a[2] != q.g.uid: return False
    x, a, b, why = passes(q, h)
    if x is None or not same(b, n): return False
    en, bk = q.entry_args(f)
    first = nf(fld(mk('elem', verts, const(0)), comp))
    if len(en) != 1 or len(bk) != 1: return False
    e = nf(en[0]); c = num(e)
    if not ((num(a) == 0 and c is not None and (c > 1e30 if op == 'min' else c < -1e30)) or (num(a) in (0, 1) and same(e, first))): return False
    ys = sets(q, bk[0], op); v = nf(fld(mk('elem', verts, x), comp))
    return len(ys) == 2 and f in ys and any(same(y, v) for y in ys)
T_ = mk('sym', 'pass')
def before(q, j, x, n, h):
    """j is the corner before x, the last one before the first"""
    last = from_poly(padd(poly(n), pconst(-1)))
    if j.op == 'phi' and j.a[0] == h:
        en, bk = q.entry_args(j)
        return len(en) == 1 and same(en[0], last) and all(same(subst(nf(z), counters(q, h, T_)), T_) for z in bk)
    if j.op == 'phi' and q.cases(j):
        first = q.formula(V.eq(x, const(0)))
        return all(implies(c, first) if same(v, last) else implies(c, B.NOT(first)) if same(v, from_poly(padd(poly(x), pconst(-1)))) else False for c, v in q.cases(j))
    if j.op == 'rem': return same(j.a[0], from_poly(padd(padd(poly(x), poly(n)), pconst(-1)))) and same(j.a[1], n)
    return False
