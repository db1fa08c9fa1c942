"""C32: neighbours of polygons"""
from lib import *
from seqs import *
from conv import *
from checks.c31 import one, atoms_of, concrete, number, NO
EXPLAIN = ('The adjacency pass is described on the value graph of the inlined MIR: what is recorded about an edge, how records are chained and found again, under which condition the second polygon is entered, and the two writes that '
           'link the polygons, which must be mirror images of each other. The four marks of tile borders are compared with the sides they stand for as a formula.')
R_REC = 'every edge is recorded once, by the polygon that runs it upwards'
R_CHAIN = 'a record is found again under its lower corner'
R_LINK = 'an edge is linked to the polygon that runs it the other way'
R_MUT = 'links are mutual'
R_ROW = 'links are kept beside the corner the edge starts at'
R_SIDE = 'open edges on the border of the tile are marked with their side'
def run(P, R):
    p = find1(P, R, 'build_mesh_adjacency', 'InternalPolygonNavmesh', 'rerecast')
    t = find1(P, R, 'into_polygon_mesh', 'ContourSet', 'rerecast')
    if not (p and t): return
    cnt = one(P, 'count_poly_verts')
    adjacency(P, R, p, {cnt} if cnt else set())
    portals(P, R, t, p)
    R.floor(R_REC, 7); R.floor(R_CHAIN, 4); R.floor(R_LINK, 5); R.floor(R_MUT, 3); R.floor(R_ROW, 2); R.floor(R_SIDE, 10)
def path_of(k): return k[2:] if k[1:2] == ('[]',) else None
def leaves_of(e):
    """(path, value) written by a store to a record, as a whole or in parts"""
    pre = path_of(e.a[0])
    def go(p, v):
        v = nf(v)
        if v.op == 'agg' and v.a[3]: return [z for n, x in zip(v.a[3], v.a[4]) for z in go(p + (n,), x)]
        return [(p, v)]
    return go(pre, e.a[2])
def part(y):
    """which part of a record an element is: (path, index)"""
    if y.op == 'fld':
        n = []; z = y
        while z.op == 'fld': n = z.a[1].split('.') + n; z = nf(z.a[0])
        if z.op in ('sel', 'elem') and n[0] in ('vert', 'poly', 'poly_edge'): return tuple(n), nf(z.a[1][-1] if z.op == 'sel' else z.a[1])
    if y.op in ('sel', 'elem'):
        b = nf(y.a[0]); i = nf(y.a[1][-1] if y.op == 'sel' else y.a[1])
        if b.op == 'phi' and isinstance(b.a[1], tuple) and '[]' in b.a[1]: return tuple(b.a[1][b.a[1].index('[]') + 1:]), i
        if b.op == 'upd' or b.op == 'fld': return None, i
    return None
def inside(c, ok):
    """c, as far as it speaks about what `ok` accepts"""
    return c if isinstance(c, bool) else B.exists(c, [a for a in atoms_of(c) if not ok(a)])
def corners(q, T, base, j, n1):
    """T[base + j] and the next corner of the polygon"""
def base_ok(q, i, nvp, poly_i, j):
    return same(i, from_poly(padd(pmul(pmul(poly(nvp), pconst(2)), poly(poly_i)), poly(j))))
def next_ok(q, v, own, nvp, i, j, poly_):
    """v is the corner after T[.. + j]: the following entry, or the first one behind the last"""
    got = set()
    if v.op in ('elem', 'sel') and same_array(v, own):
        k = from_poly(padd(poly(index(v)), padd(poly(index(own)), poly(j), -1), -1))
        if k.op == 'rem' and same(k.a[0], from_poly(padd(poly(j), pconst(1)))) and corners_of(q, k.a[1], nvp, i): return True
    for c, x in top(q, v):
        if x.op not in ('elem', 'sel') or not same_array(x, own): return False
        k = nf(x.a[1] if x.op == 'elem' else x.a[1][-1])
        if same(k, from_poly(padd(poly(index(own)), pconst(1)))): got.add('next')
        elif same(k, from_poly(padd(poly(index(own)), poly(j), -1))): got.add('first')
        else: 
            return False
    return got == {'next', 'first'}
def corners_of(q, n, nvp, i):
    """n is the number of corners of polygon i"""
    n = nf(n)
    if n.op != 'call' or last_(n.a[0]) != 'count_poly_verts': return False
    a = [nf(z) for z in n.a[1]]
    return a[0].op == 'slice' and same(a[0].a[1], from_poly(pmul(pmul(poly(nvp), pconst(2)), poly(i)))) and same(a[1], nvp)
def last_(n): return strip_gen(n).split('::')[-1]
def index(y): return nf(y.a[1] if y.op == 'elem' else y.a[1][-1])
def same_array(x, y): return nf(x.a[0]) is nf(y.a[0])
def loops_of(q, e):
    """polygon number and corner number at a store: induction variables of the loops around it"""
    out = []
    for h in q.chain(e.blk):
        v = [x for x in q.header_phis(h) if q.induction(x) and q.induction(x)[1] == 1 and num(nf(q.induction(x)[0])) == 0]
        out.append((h, v))
    return out
def adjacency(P, R, path, ops):
    q = analyse(P, path, ops); me = ('O', mk('param', q.g.uid, 1)); slf = mk('param', q.g.uid, 1)
    st = [e for e in q.events('store') if '[]' in e.a[0] and '#len' not in e.a[0]]
    recs = {}; links = []; chain = []
    for e in st:
        if e.a[0][0] == me: links.append(e); continue
        ps = leaves_of(e) if path_of(e.a[0]) is not None else []
        if any(p and p[0] in ('vert', 'poly', 'poly_edge') for p, v in ps):
            for p, v in ps: recs.setdefault(e.blk, []).append((p, v, e))
        else: chain.append(e)
    first = [b for b, l in recs.items() if any(p[0] == 'vert' for p, v, e in l)]
    second = [b for b in recs if b not in first]
    if not R.check(len(first) == 1 and len(second) == 1, R_REC, 'sites', 'edges are recorded at %d and completed at %d places' % (len(first), len(second))): return
    f = {p: (v, e) for p, v, e in recs[first[0]]}
    need = [('vert', 'x'), ('vert', 'y'), ('poly', 'x'), ('poly', 'y'), ('poly_edge', 'x')]
    if not R.check(all(k in f for k in need), R_REC, 'parts', 'only %s of an edge is recorded' % sorted(f)): return
    e0 = f[('vert', 'x')][1]; ec = nf(e0.a[1][-1])
    R.check(all(nf(x[1].a[1][-1]) is ec for x in f.values()), R_REC, 'one record', 'the parts of an edge go to different records')
    v0, v1 = f[('vert', 'x')][0], f[('vert', 'y')][0]
    nvp = fld(mk('deref', slf), 'max_vertices_per_polygon')
    ls = loops_of(q, e0)
    if not R.check(len(ls) == 2 and ls[0][1] and ls[1][1], R_REC, 'loops', 'edges are not recorded by going through polygons and their corners'): return
    poly_i, j = f[('poly', 'x')][0], f[('poly_edge', 'x')][0]
    R.check(any(poly_i is x for x in ls[1][1]), R_REC, 'polygon', 'the polygon recorded is %s' % shown(poly_i)[:60])
    R.check(f[('poly', 'y')][0] is poly_i, R_REC, 'not linked yet', 'an edge is recorded with %s as the other polygon' % shown(f[('poly', 'y')][0])[:60])
    R.check(any(j is x for x in ls[0][1]), R_REC, 'edge number', 'the number of the edge recorded is %s' % shown(j)[:60])
    nvp = width(q, v0, poly_i, j)
    if not R.check(nvp is not None, R_REC, 'first corner', 'the first corner of an edge is %s' % shown(v0)[:100]): return
    R.check(next_ok(q, v1, v0, nvp, poly_i, j, None), R_REC, 'second corner', 'the second corner of an edge is %s' % shown(v1)[:100])
    p = passes(q, ls[1][0])
    R.check(p[0] is poly_i and last_field(p[2]) == 'npolys', R_REC, 'all polygons', 'edges are recorded of polygons up to %s only' % (shown(p[2]) if p[2] is not None else p[3]))
    up = q.formula(V.lt(v0, v1, False)); g = q.guard(first[0], ls[0][0])
    R.check(equiv(inside(g, lambda a: v1 in set(walk_nodes(a)) | {a}), up), R_REC, 'upwards', 'an edge is recorded when %s' % showf(g)[:160])
    used = q.formula(V.eq(v0, const(NO)))
    more = B.OR(B.NOT(used), False)
    others = inside(g, lambda a: v1 not in set(walk_nodes(a)))
    pj = passes(q, ls[0][0])
    counted = pj[0] is j and corners_of(q, pj[2], nvp, poly_i) and implies(q.formula(V.lt(j, pj[2], False)), others)
    R.check(counted or implies(B.AND(more, q.formula(V.lt(j, nvp, False))), others), R_REC, 'every edge', 'an edge is only recorded when %s' % showf(others)[:160])
    # the number of the record moves on with every record
    k = counter(q, ec, first[0], ls[0][0])
    R.check(k is None, R_REC, 'next record', 'the number of records %s' % k)
    # chains: head under the lower corner, links behind
    hd = [e for e in chain if nf(e.a[1][-1]) is v0 and nf(e.a[2]) is ec]
    lk = [e for e in chain if e not in hd]
    if not R.check(len(hd) == 1 and len(lk) == 1 and hd[0].a[0] == lk[0].a[0], R_CHAIN, 'sites', 'the record is not made the first one under its lower corner, with the previous first one behind it'): return
    fe = hd[0].a[0]
    old = nf(lk[0].a[2])
    R.check(old.op in ('sel', 'elem') and index(old) is v0 and nf(old.a[0]).op == 'phi' and nf(old.a[0]).a[1] == fe, R_CHAIN, 'previous', 'what comes after a record is %s' % shown(old)[:80])
    R.check(all(equiv(q.guard(e.blk, ls[0][0]), g) for e in (hd[0], lk[0])), R_CHAIN, 'always', 'a record is not always entered into its chain')
    off = from_poly(padd(poly(lk[0].a[1][-1]), poly(ec), -1))
    R.check(not any(y.op == 'phi' for y in walk_nodes(off)) and last_field(off) == 'nvertices', R_CHAIN, 'place', 'what comes after a record is kept at %s' % shown(lk[0].a[1][-1])[:80])
    # ---- the second pass
    s = {p: (v, e) for p, v, e in recs[second[0]]}
    if not R.check(('poly', 'y') in s and ('poly_edge', 'y') in s and len(s) == 2, R_LINK, 'parts', 'completing an edge sets %s' % sorted(s)): return
    e2 = s[('poly', 'y')][1]; x = nf(e2.a[1][-1])
    R.check(nf(s[('poly_edge', 'y')][1].a[1][-1]) is x, R_LINK, 'one record', 'the polygon and its edge go to different records')
    ls2 = loops_of(q, e2)
    if not R.check(len(ls2) == 2 and ls2[0][1] and ls2[1][1] and x.op == 'phi' and x.a[0] in q.loops and q.chain(x.a[0])[1:] == [z[0] for z in ls2], R_LINK, 'loops', 'the record of an edge is not looked for once per edge of each polygon'): return
    i2, j2 = s[('poly', 'y')][0], s[('poly_edge', 'y')][0]
    R.check(any(i2 is z for z in ls2[1][1]) and any(j2 is z for z in ls2[0][1]), R_LINK, 'polygon and edge', 'an edge is completed with polygon %s, edge %s' % (shown(i2)[:40], shown(j2)[:40]))
    p = passes(q, ls2[1][0])
    R.check(p[0] is i2 and last_field(p[2]) == 'npolys', R_LINK, 'all polygons', 'edges are completed of polygons up to %s only' % (shown(p[2]) if p[2] is not None else p[3]))
    h = x.a[0]
    # corners of the edge in this polygon
    en, bk = q.entry_args(x); ent = [nf(z) for z in en]; back = [nf(z) for z in bk]
    heads = [z for z in ent if z.op in ('sel', 'elem') and nf(z.a[0]).op == 'phi' and nf(z.a[0]).a[1] == fe]
    if not R.check(len(ent) == 1 and heads, R_LINK, 'start', 'the search starts at %s' % [shown(z)[:60] for z in ent]): return
    w1 = index(heads[0])
    R.check(all(z.op in ('sel', 'elem') and nf(z.a[0]).op == 'phi' and nf(z.a[0]).a[1] == fe and same(index(z), from_poly(padd(poly(off), poly(x)))) for z in back), R_LINK, 'onwards', 'the search goes on at %s' % [shown(z)[:60] for z in back])
    gs = q.guard(h, ls2[0][0])
    mt = [(b, t) for b, t in ways_out(q, h) if second[0] in q.reach([t], {ls2[0][0]}) or t == second[0]]
    end = [(b, t) for b, t in ways_out(q, h) if (b, t) not in mt and not dead_end(q, t)]
    if not R.check(bool(mt) and second[0] not in q.loops[h], R_LINK, 'match', 'the search goes on after the edge was linked'): return
    m = False; go = False
    for b, t in mt: m = B.OR(m, B.AND(q.guard(b, h), q.edge(b, t)))
    R.check(all(implies(B.AND(q.guard(b, h), q.edge(b, t)), q.formula(V.eq(x, const(NO)))) for b, t in end), R_LINK, 'whole chain', 'the search ends before the end of the chain')
    sel = {}
    for a in atoms_of(m):
        for y in walk_nodes(a):
            z = part(y)
            if z and z[1] is x and z[0]: sel[z[0]] = y
    w0 = None
    for a in atoms_of(m):
        if ('vert', 'y') in sel and sel[('vert', 'y')] in walk_nodes(a):
            for y in walk_nodes(a):
                if y.op in ('elem', 'sel') and y is not sel[('vert', 'y')] and equiv(q.formula(V.eq(sel[('vert', 'y')], y)), B.var(a)): w0 = y
    if not R.check(w0 is not None and ('poly', 'x') in sel and ('poly', 'y') in sel, R_LINK, 'compared', 'a record is taken when %s' % showf(m)[:160]): return
    want = B.AND(q.formula(V.eq(sel[('vert', 'y')], w0)), q.formula(V.eq(sel[('poly', 'x')], sel[('poly', 'y')])))
    R.check(equiv(inside(m, lambda a: any(y in walk_nodes(a) for y in sel.values())), want), R_LINK, 'exactly', 'a record is taken when %s' % showf(m)[:200])
    rest = inside(m, lambda a: not any(y in walk_nodes(a) for y in sel.values()))
    R.check(implies(B.NOT(q.formula(V.eq(x, const(NO)))), rest), R_LINK, 'any record', 'a record is only taken when %s' % showf(rest)[:120])
    n2 = width(q, w0, i2, j2)
    R.check(n2 is not None and same(n2, nvp) and next_ok(q, w1, w0, nvp, i2, j2, None), R_LINK, 'corners', 'the edge looked for runs from %s to %s' % (shown(w0)[:60], shown(w1)[:60]))
    down = q.formula(V.lt(w1, w0, False))
    R.check(equiv(inside(gs, lambda a: w1 in walk_nodes(a)), down), R_LINK, 'downwards', 'a record is looked for when %s' % showf(gs)[:160])
    # ---- links
    if not R.check(len(links) == 2 and links[0].a[0] == links[1].a[0] and links[0].a[0][-2] == 'polygons', R_MUT, 'sites', 'links are written at %d places' % len(links)): return
    a, b = links; hh = q.loop(a.blk)
    pa, pb = nf(a.a[2]), nf(b.a[2])
    ka, kb = part(pa), part(pb)
    R.check(bool(ka and kb) and {ka[0], kb[0]} == {('poly', 'x'), ('poly', 'y')} and ka[1] is kb[1], R_MUT, 'polygons', 'the links are %s and %s' % (shown(pa)[:60], shown(pb)[:60]))
    if not (ka and kb): return
    pos = passes(q, hh) if hh is not None else (None,) * 4
    R.check(hh is not None and q.loop(b.blk) == hh and pos[0] is not None and pos[0] is ka[1] and num(nf(pos[1])) == 0, R_MUT, 'every record', 'not every record is looked at: %s' % (pos[3],))
    if pos[2] is not None:
        cur = final(q, pos[2], ec)
        R.check(cur, R_MUT, 'all records', 'records up to %s are looked at' % shown(pos[2])[:100])
    ne = B.NOT(q.formula(V.eq(pa, pb)))
    for e in links:
        c = q.guard(e.blk, hh)
        c = inside(c, lambda t: pa in walk_nodes(t) or pb in walk_nodes(t))
        full = q.guard(e.blk, hh); at = V.lt(pos[0], pos[2], False) if pos[2] is not None else None
        R.check(equiv(c, ne) and at is not None and implies(B.AND(ne, q.formula(at)), full), R_MUT, 'exactly', 'polygons are linked when %s' % showf(full)[:160])
    for e, own, other in ((a, kb, pb), (b, ka, pa)):
        # the link is written into the row of the polygon that the other link names, at the edge recorded for that polygon
        ax = own[0][1]
        i = nf(e.a[1][-1]); pl = other
        r = padd(padd(poly(i), pmul(pmul(poly(nvp), pconst(2)), poly(pl)), -1), poly(nvp), -1)
        y = from_poly(r); z = part(y)
        R.check(z is not None and z[0] == ('poly_edge', ax) and z[1] is own[1], R_ROW, ax, 'the link is written at %s' % shown(i)[:120])
def final(q, bound, ec):
    """the bound is the number of records made"""
    bound = nf(bound)
    xs = [bound]
    if bound.op in ('mins', 'min'): xs = [nf(z) for z in (bound.a[0] if isinstance(bound.a[0], tuple) else bound.a)]
    return any(z.op == 'phi' and z.a[1] == ec.a[1] for z in xs)
def last_field(n):
    n = nf(n) if n is not None else None
    return n.a[1] if n is not None and n.op == 'fld' else None
def width(q, v, i, j):
    """v is polygons[2*n*i + j] -> n"""
    if v.op not in ('elem', 'sel'): return None
    p = padd(poly(index(v)), poly(j), -1)
    if len(p) != 1: return None
    (m, c), = p.items(); m = dict(m)
    if c != 2 or m.get(i) != 1: return None
    del m[i]
    if len(m) != 1 or list(m.values()) != [1]: return None
    return list(m)[0]
def counter(q, ec, blk, h):
    """None if ec moves on by one exactly with the record"""
    if ec.op != 'phi' or ec.a[0] != h: return 'is not counted'
    en, bk = q.entry_args(ec); g = q.guard(blk, h); one_ = from_poly(padd(poly(ec), pconst(1)))
    for b in q.latches(h):
        lc = B.AND(q.guard(b, h), q.edge(b, h)); v = nf(q.g.phi_args(ec)[b])
        for c, x in top(q, v):
            c = B.AND(lc, c)
            if unsat(c): continue
            if same(x, one_): 
                if not implies(c, g): return 'moves on without a record'
            elif x is ec:
                if not unsat(B.AND(c, g)): return 'does not move on with a record'
            else: return 'becomes %s' % shown(x)
    o = nf(en[0])
    while o.op == 'phi' and o.a[0] in q.loops and q.entry_args(o)[0]: o = nf(q.entry_args(o)[0][0])
    return None if num(o) == 0 else 'starts at %s' % shown(o)
def portals(P, R, path, adj):
    names = 'triangulate get_poly_merge_value merge_poly_verts count_poly_verts add_vertex can_remove_vertex remove_vertex'.split()
    ops = {adj} | {p for n in names for p in [one(P, n)] if p}
    q = analyse(P, path, ops); slf = mk('param', q.g.uid, 1)
    ac = [e for e in q.events('call') if e.a[0] == adj]
    if not R.check(len(ac) == 1, R_SIDE, 'adjacency', 'neighbours are determined %d times' % len(ac)): return
    ok_ret = [(c, v, e) for c, v, e in results(q) if v.op == 'agg' and v.a[2] == 'Ok']
    R.check(ok_ret and all(implies(c, q.facts(ac[0].blk)) or any(y.op == 'after' and 'build_mesh_adjacency' in str(y.a) for y in walk_nodes(v)) for c, v, e in ok_ret), R_SIDE, 'always', 'a mesh is handed out without its neighbours')
    st = [e for e in q.events('store') if e.a[0][-2:] == ('polygons', '[]') and q.dominates(ac[0].blk, e.blk)]
    if not R.check(len(st) >= 1, R_SIDE, 'marks', 'no marks are set'): return
    hs = {tuple(q.chain(e.blk)) for e in st}
    if not R.check(len(hs) == 1 and len(next(iter(hs))) == 2, R_SIDE, 'loops', 'marks are not set by going through polygons and edges'): return
    hj, hi = next(iter(hs))
    vi = [x for x in q.header_phis(hi) if q.induction(x) and q.induction(x)[1] == 1 and num(nf(q.induction(x)[0])) == 0]
    vj = [x for x in q.header_phis(hj) if q.induction(x) and q.induction(x)[1] == 1 and num(nf(q.induction(x)[0])) == 0]
    marks = {}; site = None
    for e in st:
        i = nf(e.a[1][-1]); ok = None
        for a in vi:
            for b in vj:
                r = from_poly(padd(poly(i), poly(b), -1))
                for m, c in poly(r).items():
                    for n, k in m:
                        if n is not a and same(r, from_poly(padd(poly(n), pmul(pmul(poly(n), pconst(2)), poly(a))))): ok = (a, b, n)
        if not R.check(ok is not None, R_SIDE, 'place', 'a mark is put at %s' % shown(i)[:80]): return
        site = ok
        for c, v in spread(q, e.a[2]): marks.setdefault(int(num(v)) if num(v) is not None else v, []).append((c, e))
    for cs in [marks]:
        R.check(set(marks) == {0x8000, 0x8001, 0x8002, 0x8003}, R_SIDE, 'values', 'the marks are %s' % sorted(hex(k) if isinstance(k, int) else shown(k) for k in marks))
    vi, vj, nvp = site
    p = passes(q, hi)
    R.check(p[0] is vi and p[2] is not None and any(y.op == 'fld' and y.a[1] == 'npolys' or y.op == 'phi' and 'npolys' in str(y.a[1]) for y in [nf(p[2])] + list(walk_nodes(nf(p[2])))), R_SIDE, 'all polygons', 'marks are set for polygons up to %s' % (shown(p[2]) if p[2] is not None else p[3]))
    base = from_poly(padd(pmul(pmul(poly(nvp), pconst(2)), poly(vi)), poly(vj)))
    arr = [y for e in st for a in atoms_of(q.guard(e.blk, hj)) for y in walk_nodes(a) if y.op in ('sel', 'elem')]
    own = [y for y in arr if same(index(y), base)]; open_ = [y for y in arr if same(index(y), from_poly(padd(poly(base), poly(nvp))))]
    if not R.check(bool(own) and bool(open_), R_SIDE, 'looked at', 'marks are set without looking at the corner and at the neighbour'): return
    own, open_ = own[0], open_[0]
    crd = {}
    for y in {y for l in marks.values() for cv, e in l for a in atoms_of(B.AND(cv, q.guard(e.blk, hj))) for y in walk_nodes(a) if y.op == 'fld' and y.a[1] in ('x', 'z')}:
        v = nf(y.a[0])
        if v.op not in ('sel', 'elem'): continue
        k = index(v)
        if k is own: crd[('a', y.a[1])] = y
        elif k.op in ('sel', 'elem') and nf(k.a[0]) is nf(own.a[0]):
            got = {('next' if same(t, from_poly(padd(poly(vj), pconst(1)))) else 'first' if num(nf(t)) == 0 else shown(t)) for c, t in top(q, from_poly(padd(padd(poly(index(k)), poly(base), -1), poly(vj))) if index(k).op != 'phi' else index(k))} if False else wraps(q, index(k), base, vj)
            if R.check(got == {'next', 'first'}, R_SIDE, 'second corner', 'the second corner of an edge is the one at %s' % shown(index(k))[:80]): crd[('b', y.a[1])] = y
    if not R.check(set(crd) == {(s, t) for s in 'ab' for t in 'xz'}, R_SIDE, 'both corners', 'a border is recognised by %s' % sorted(crd)): return
    w, h = fld(slf, 'width'), fld(slf, 'height')
    both = lambda ax, v: B.AND(q.formula(V.eq(crd[('a', ax)], v)), q.formula(V.eq(crd[('b', ax)], v)))
    side = {0x8000: both('x', const(0)), 0x8001: both('z', h), 0x8002: both('x', w), 0x8003: both('z', const(0))}
    prior = False
    isopen = B.AND(q.formula(V.eq(open_, const(NO))), B.NOT(q.formula(V.eq(own, const(NO)))))
    for k in sorted(side):
        c = False
        for cv, e in marks.get(k, []): c = B.OR(c, B.AND(cv, q.guard(e.blk, hj)))
        want = B.AND(side[k], B.NOT(prior)); prior = B.OR(prior, side[k])
        tops = inside(c, lambda a: any(y in walk_nodes(a) for y in crd.values()) )
        R.check(equiv(tops, want) or implies(tops, side[k]) and implies(want, tops), R_SIDE, 'side %d' % (k & 15), 'the mark %#x is set when %s' % (k, showf(tops)[:200]))
        o = inside(c, lambda a: not any(y in walk_nodes(a) for y in crd.values()))
        R.check(implies(o, isopen) and implies(B.AND(isopen, q.formula(V.lt(vj, nvp, False))), o), R_SIDE, 'open %d' % (k & 15), 'the mark %#x is set for edges with %s' % (k, showf(o)[:160]))
    # only and always with a border
    g = q.facts(hi); bs = fld(slf, 'border_size')
    gb = inside(g, lambda a: bs in walk_nodes(a))
    R.check(equiv(gb, q.formula(V.lt(const(0), bs, False))) or equiv(gb, B.NOT(q.formula(V.eq(bs, const(0))))), R_SIDE, 'with a border', 'marks are set when %s' % showf(gb)[:120])
def spread(q, v, c=True, depth=6):
    """v with the choices in it spelled out"""
    v = nf(v)
    ph = [y for y in [v] + list(walk_nodes(v)) if y.op == 'phi' and y.a[0] not in q.loops]
    if not ph or not depth: return [(c, fold(v))]
    return [z for k, x in q.cases(ph[0]) or [] for z in spread(q, nf(subst(v, {ph[0]: nf(x)})), B.AND(c, k), depth - 1)]
def fold(v):
    if v.op == 'or' and all(num(nf(x)) is not None for x in v.a[:2]): return const(int(num(nf(v.a[0]))) | int(num(nf(v.a[1]))))
    return v
def wraps(q, k, base, j):
    """the second corner of an edge: where it is, relative to the polygon"""
    out = set()
    start = padd(poly(base), poly(j), -1)
    r = from_poly(padd(poly(k), start, -1))
    for c, t in leaves(q, r) if r.op == 'phi' else expand(q, r):
        out.add('next' if same(t, from_poly(padd(poly(j), pconst(1)))) else 'first' if num(nf(t)) == 0 else shown(t))
    return out
def expand(q, r):
    ph = [y for y in walk_nodes(r) if y.op == 'phi' and y.a[0] not in q.loops]
    if not ph: return [(True, nf(r))]
    return [(c, nf(subst(r, {ph[0]: nf(v)}))) for c, v in q.cases(ph[0]) or []]
