from fractions import Fraction
import ranges
from conv import *
from seqs import *
from checks.c04 import cval
from checks.c05 import flat_cases
EXPLAIN = ('Bounds, slope marking and both rasterising loops are described on the value graph of the inlined MIR: what each pass of each loop reads, passes on and stores, and that every pass does; the footprint of a triangle '
           'on the grid is compared as formulas with the bounds of the clipped polygon, and no conversion may truncate.')
R_BOX = 'the bounds cover every vertex'
R_MARK = 'a triangle becomes walkable exactly when its own slope is within the limit'
R_EACH = 'every triangle is rasterised once, with its own vertices and area'
R_FOOT = 'a triangle fills the cells of its footprint within the field'
R_SPLIT = 'clipping puts every corner on its side of the plane'
R_SPAN = 'a span covers the clipped part of the triangle'
MAXF = 3.4e38
def fold(q, x, op, T):
    """x = op over the elements of a loop's range -> (element at T, first, bound, problem)"""
    x = nf(x)
    if not (x.op == 'phi' and x.a[0] in q.loops): return None, None, None, '%s is no result of a loop' % shown(x)[:60]
    h = x.a[0]; en, bk = q.entry_args(x)
    ys = set()
    for b in bk:
        b = nf(b)
        if b.op != op or not any(z is x for z in b.a[0]): return None, None, None, 'a pass makes it %s' % shown(b)[:80]
        r = [z for z in b.a[0] if z is not x]
        if len(r) != 1: return None, None, None, 'a pass makes it %s' % shown(b)[:80]
        ys.add(nf(r[0]))
    if len(ys) != 1 or len(en) != 1: return None, None, None, 'passes differ'
    pos, a, b, why = passes(q, h)
    if pos is None: return None, None, None, why
    y = subst(ys.pop(), counters(q, h, T)); e0 = nf(en[0]); lim = num(e0)
    ext = lim is not None and (float(lim) >= MAXF if op == 'mins' else float(lim) <= -MAXF) or str(shown(e0)) in ('inf', '-inf')
    first = num(a)
    z0 = same(e0, subst(y, {T: const(0)}))
    if not (first == 0 and (ext or z0) or first == 1 and z0): return None, None, None, 'it starts with %s and continues at element %s' % (shown(e0)[:80], shown(a)[:20])
    # the counters start at `first`: T counts elements, not passes
    if first == 1:
        y = subst(y, {})
    return y, const(0), nf(b), None
def run(P, R):
    bounds(P, R); mark(P, R); each(P, R); footprint(P, R); split(P, R)
def bounds(P, R):
    f = find1(P, R, 'compute_aabb', 'TriMesh', 'rerecast')
    if not f: return
    q = analyse(P, f); n = 0
    for c, v, e in results(q):
        me = [y for y in (mk('deref', mk('param', q.g.uid, 1)), mk('param', q.g.uid, 1))]
        none = [q.formula(V.eq(fld(fld(m, 'vertices'), '#len'), const(0))) for m in me]
        if v.op == 'agg' and v.a[2] == 'None':
            R.check(any(implies(c, z) for z in none), R_BOX, 'none', 'there are no bounds when %s' % showf(c)[:120]); continue
        b = nf(v.a[4][0]) if v.op == 'agg' and v.a[2] == 'Some' else v
        for s, op in (('min', 'mins'), ('max', 'maxs')):
            for ax in 'xyz':
                n += 1
                T = mk('sym', 't')
                y, a, l, why = fold(q, fld(fld(b, s), ax), op, T)
                if not R.check(y is not None, R_BOX, '%s.%s' % (s, ax), 'the bound %s.%s: %s' % (s, ax, why)): continue
                ok = any(same(y, fld(V.elem(fld(m, 'vertices'), T), ax)) for m in me) and any(same(l, fld(fld(m, 'vertices'), '#len')) for m in me)
                R.check(ok, R_BOX, '%s.%s' % (s, ax), 'the bound %s.%s is taken over %s, %s of them' % (s, ax, shown(y)[:80], shown(l)[:60]))
    R.check(n >= 6, R_BOX, 'any', 'no bounds are computed')
def corner(m, T, k):
    return V.elem(fld(m, 'vertices'), fld(V.elem(fld(m, 'indices'), T), 'xyz'[k]))
def cross_y(a, b, c):
    """components of (b - a) x (c - a)"""
    def d(p, q_, ax): return padd(poly(fld(p, ax)), poly(fld(q_, ax)), -1)
    def comp(u, w): return from_poly(padd(pmul(d(b, a, u), d(c, a, w)), pmul(d(b, a, w), d(c, a, u)), -1))
    return [comp('y', 'z'), comp('z', 'x'), comp('x', 'y')]
def alls(q, h, fine=None):
    x, a, b, why = passes(q, h, fine)
    return x, a, b, why
def mark(P, R):
    f = find1(P, R, 'mark_walkable_triangles', 'TriMesh', 'rerecast')
    if not f: return
    q = analyse(P, f); m = mk('deref', mk('param', q.g.uid, 1)); T = mk('sym', 't')
    st = [e for e in q.events('store') if isinstance(e.a[0], tuple) and not isinstance(e.a[0][0], int) and not unsat(q.facts(e.blk))]
    mine = [e for e in st if 'area_types' in e.a[0]]
    for e in st:
        if e not in mine: R.fail(R_MARK, 'also %s' % e.a[0][-1], 'marking also changes %s' % str(e.a[0][1:]))
    if not R.check(len(mine) == 1 and mine[0].a[0][-1] == '[]', R_MARK, 'store', 'areas are set by %d statements' % len(mine)): return
    e = mine[0]; h = q.loop(e.blk)
    if not R.check(h is not None, R_MARK, 'loop', 'areas are not set triangle by triangle'): return
    x, a, b, why = passes(q, h)
    if not R.check(x is not None, R_MARK, 'all', 'not every triangle is looked at: %s' % why): return
    M = counters(q, h, T)
    orig = lambda z: subst(nf(z), M)
    i = orig(e.a[1][-1])
    R.check(same(i, T), R_MARK, 'own', 'the area of triangle %s is set in pass t' % shown(i)[:60])
    R.check(num(a) == 0 and any(same(b, fld(fld(m, n), '#len')) for n in ('indices', 'area_types')), R_MARK, 'all', 'triangles %s to %s are looked at' % (shown(a)[:40], shown(b)[:60]))
    R.check(len(q.chain(e.blk)) == 1 and always(q, e.blk), R_MARK, 'once', 'the triangles are not always looked at exactly once')
    w = cval(P, 'AreaType::DEFAULT_WALKABLE'); v = nf(e.a[2])
    v0 = num(fld(v, '0')) if v.op == 'agg' else num(v)
    R.check(v0 is not None and v0 == walkable(w), R_MARK, 'value', 'a walkable triangle gets the area %s' % shown(v)[:60])
    g = drop_loop(q, e.blk, h, x, b)
    up = None
    for n in [y for at in fatoms(g) for y in walk_nodes(at)] if not isinstance(g, bool) else []:
        if n.op == 'call' and strip_gen(n.a[0]).split('::')[-1].startswith(('normalize', 'try_normalize')): up = n
    if not R.check(up is not None, R_MARK, 'normal', 'the slope is not decided by a unit normal: %s' % showf(g)[:200]): return
    vec = orig(up.a[1][0]); want = cross_y(*[corner(m, T, k) for k in range(3)])
    comps = [fld(vec, ax) for ax in 'xyz']
    R.check(all(same(p, w_) for p, w_ in zip(comps, want)), R_MARK, 'normal', 'the normal of triangle t is computed from %s' % shown(vec)[:200])
    y = fld(up, 'y')
    cs = [n for at in fatoms(g) for n in walk_nodes(at) if n.op == 'call' and strip_gen(n.a[0]).split('::')[-1] == 'cos' or n.op == 'cos']
    ok = False
    for c in cs:
        arg = nf(c.a[1][0] if c.op == 'call' else c.a[0])
        if not same(arg, mk('param', q.g.uid, 2)): continue
        ok = ok or equiv(g, flt(q, c, y))
    R.check(ok, R_MARK, 'slope', 'a triangle becomes walkable when %s' % showf(g)[:240])
def flt(q, a, b): return q.formula(V.lt(nf(a), nf(b), True))
def fle_(q, a, b): return B.NOT(flt(q, b, a))
def walkable(w):
    if isinstance(w, int): return w
    if hasattr(w, 'op'): return num(fld(w, '0')) if w.op == 'agg' else num(w)
    if isinstance(w, (list, tuple)) and w: return walkable(w[-1])
    return w
def drop_loop(q, blk, h, x, b):
    """the guard of blk within a pass"""
    g = q.guard(blk, h)
    inside = q.formula(mk('lt', x, b))
    if isinstance(g, bool): return g
    for a in list(fatoms(g)):
        va = B.var(a)
        for val, lit in ((True, va), (False, B.NOT(va))):
            if implies(inside, lit): g = B.restrict(g, {a: val})
            if isinstance(g, bool): return g
    return g
def each(P, R):
    for nm, ty in (('rasterize_triangles', 'Heightfield'), ('populate_from_trimesh', 'Heightfield')):
        f = find1(P, R, nm, ty, 'rerecast')
        if not f: continue
        ops = set(find(P, 'rasterize_triangle', 'Heightfield')) | {b['path'] for b in P.all if b['crate'] == 'rerecast' and str(b.get('name')).startswith('filter_')}
        q = analyse(P, f, ops); T = mk('sym', 't')
        cs = [e for e in q.events('call') if strip_gen(e.a[0]).split('::')[-1] == 'rasterize_triangle']
        if nm == 'populate_from_trimesh' and not cs: 
            cs2 = [e for e in q.events('call') if strip_gen(e.a[0]).split('::')[-1] == 'rasterize_triangles']
            R.check(len(cs2) == 1, R_EACH, nm, '%s does not rasterise the triangles' % nm); continue
        if not R.check(len(cs) == 1, R_EACH, nm, '%s rasterises a triangle at %d places' % (nm, len(cs))): continue
        e = cs[0]; h = q.loop(e.blk)
        if not R.check(h is not None and len(q.chain(e.blk)) == 1, R_EACH, nm + ' / loop', '%s does not rasterise triangle by triangle' % nm): continue
        m = next((z for z in (mk('deref', mk('param', q.g.uid, 2)), mk('param', q.g.uid, 2)) if any(y is z for y in walk_nodes(nf(e.a[3][1])))), mk('param', q.g.uid, 2))
        err = nf(e.a[4])
        failed = q.formula(V.eq(V.discr(err, 'core::result::Result'), const(FL.discr_of('core::result::Result', 'Err'))))
        x, a, b, why = passes(q, h, fine=lambda p, s, c: implies(c, failed))
        if not R.check(x is not None, R_EACH, nm + ' / all', 'not every triangle is rasterised: %s' % why): continue
        R.check(num(a) == 0 and any(same(b, fld(fld(m, n), '#len')) for n in ('indices', 'area_types')) and every_pass(q, e.blk, h), R_EACH, nm + ' / all', '%s rasterises triangles %s to %s, not in every pass' % (nm, shown(a)[:30], shown(b)[:60]))
        M = counters(q, h, T)
        tri = subst(nf(e.a[3][1]), M)
        vs = list(tri.a) if tri.op == 'arr' else []
        while len(vs) == 1 and isinstance(vs[0], tuple): vs = list(vs[0])
        want = [corner(m, T, k) for k in range(3)]
        rot = [want[k:] + want[:k] for k in range(3)]
        R.check(len(vs) == 3 and any(all(same(p, w) for p, w in zip(vs, r)) for r in rot), R_EACH, nm + ' / vertices', '%s passes on the corners %s' % (nm, shown(tri)[:200]))
        ar = subst(nf(e.a[3][2]), M)
        R.check(same(ar, V.elem(fld(m, 'area_types'), T)), R_EACH, nm + ' / area', '%s passes on the area %s for triangle t' % (nm, shown(ar)[:100]))
        cl = nf(e.a[3][3]); want = mk('param', q.g.uid, 3 if nm == 'rasterize_triangles' else 4)
        R.check(same(cl, want), R_EACH, nm + ' / climb', '%s passes on the merge threshold %s' % (nm, shown(cl)[:60]))
        for c, v, r in results(q):
            if v.op == 'agg' and v.a[2] == 'Err': R.check(implies(c, failed) or 'rasterize_triangle' in shown(v), R_EACH, nm + ' / error', '%s fails when %s' % (nm, showf(c)[:160]))
    f = find1(P, R, 'rasterize_triangle', 'Heightfield', 'rerecast')
    if f: ranges.narrowing(P, R, analyse(P, f, set(find(P, 'divide_poly', None, 'rerecast') + find(P, 'add_span', 'Heightfield'))), 'rasterize_triangle')
# ---------------------------------------------------------------- one triangle
def clamped(v):
    """v = clamp(x, lo, hi) -> (x, lo, hi)"""
    v = nf(v)
    for o, i in (('mins', 'maxs'), ('maxs', 'mins')):
        if v.op == o and len(v.a[0]) == 2:
            for k in (0, 1):
                w = nf(v.a[0][k])
                if w.op == i and len(w.a[0]) == 2:
                    for j in (0, 1):
                        yield (w.a[0][j], w.a[0][1 - j], v.a[0][1 - k]) if o == 'mins' else (w.a[0][j], v.a[0][1 - k], w.a[0][1 - j])
def footprint(P, R):
    f = find1(P, R, 'rasterize_triangle', 'Heightfield', 'rerecast')
    if not f: return
    div = find(P, 'divide_poly', None, 'rerecast'); add = find(P, 'add_span', 'Heightfield', 'rerecast')
    if not R.check(div and add, R_FOOT, 'anchors', 'the functions that clip a triangle and insert a span no longer exist'): return
    q = analyse(P, f, set(div + add)); p1 = mk('param', q.g.uid, 1)
    evs = [e for e in q.events('call') if e.a[0] in div + add or strip_gen(e.a[0]).split('::')[-1] in ('divide_poly', 'add_span')]
    ad = [e for e in evs if strip_gen(e.a[0]).split('::')[-1] == 'add_span']; dv = [e for e in evs if e not in ad]
    if not R.check(len(ad) == 1 and len(dv) == 2, R_FOOT, 'calls', 'a triangle is clipped at %d and inserted at %d places' % (len(dv), len(ad))): return
    e = ad[0]; si = nf(e.a[3][1])
    if not R.check(si.op == 'agg', R_SPAN, 'insertion', 'what is inserted is %s' % shown(si)[:100]): return
    ins = dict(zip(si.a[3], si.a[4])); span = nf(ins['span']); sp = dict(zip(span.a[3], span.a[4])) if span.op == 'agg' else {}
    R.check(same(sp.get('area', span), mk('param', q.g.uid, 3)), R_EACH, 'span / area', 'the span inserted has the area %s' % shown(nf(sp.get('area', span)))[:60])
    R.check(same(ins['flag_merge_threshold'], mk('param', q.g.uid, 4)), R_EACH, 'span / threshold', 'the span is inserted with the threshold %s' % shown(nf(ins['flag_merge_threshold']))[:60])
    def base(v): 
        v = nf(v)
        while v.op in ('cast', 'toint') : v = nf(v.a[-1])
        return v
    xv, zv = base(ins['x']), base(ins['z'])
    if not R.check(xv.op == 'phi' and zv.op == 'phi' and xv.a[0] in q.loops and zv.a[0] in q.loops and zv.a[0] in q.chain(xv.a[0]), R_FOOT, 'cell', 'the span is inserted at %s, %s' % (shown(xv)[:60], shown(zv)[:60])): return
    hx, hz = xv.a[0], zv.a[0]
    def norm(n):
        """the field's own values written alike wherever they are read"""
        m = {}
        for y in walk_nodes(nf(n)):
            if y.op == 'phi' and isinstance(y.a[1], tuple) and y.a[1] and y.a[1][0] == ('O', p1) and len(y.a[1]) > 1: m[y] = mk('sym', 'self.' + '.'.join(y.a[1][1:]))
            if y.op == 'fld':
                z = y; path = []
                while z.op == 'fld': path.append(z.a[1]); z = nf(z.a[0])
                if z.op == 'deref' and z.a[0] is p1 or z.op == 'phi' and z.a[1] == (('O', p1),): m[y] = mk('sym', 'self.' + '.'.join(reversed(path)))
        return nf(subst(nf(n), m))
    def S(p): return mk('sym', 'self.' + p)
    tri = mk('param', q.g.uid, 2)
    T = mk('sym', 't')
    def grid(v, lo_): return v
    def check_range(h, var, ax, dim, lowv, highv, label):
        en, bk = q.entry_args(var)
        ok = len(en) == 1 and all(same(b, from_poly(padd(poly(var), pconst(1)))) for b in bk)
        R.check(ok, R_FOOT, label + ' / step', 'the %s cells are not visited one by one' % label)
        if len(en) != 1: return
        def cell(v): return mk('toint', 'i32', from_poly(pmul(padd(poly(v), poly(S('aabb.min.' + ax)), -1), {((S('cell_size'), -1),): 1})))
        last = from_poly(padd(poly(S(dim)), pconst(-1)))
        s = norm(en[0])
        R.check(any(num(lo) == -1 and same(hi, last) and same(v, norm(cell(lowv))) for v, lo, hi in clamped(s)), R_FOOT, label + ' / first', 'the first %s cell is %s' % (label, shown(s)[:200]))
        up = None
        for b in sorted(q.loops[h]):
            up = q.upper(var, b)
            if up is not None: break
        u = norm(from_poly(padd(poly(up), pconst(-1)))) if up is not None else None
        R.check(u is not None and any(num(lo) == 0 and same(hi, last) and same(v, norm(cell(highv))) for v, lo, hi in clamped(u)), R_FOOT, label + ' / last', 'the last %s cell is %s' % (label, shown(u)[:200] if u is not None else 'unknown'))
        return cell
    def mm(op, ax): return mk(op, tuple(fld(V.elem(tri, const(k)), ax) for k in range(3)))
    tmin, tmax = minmax(tri, 'mins', 'z'), minmax(tri, 'maxs', 'z')
    check_range(hz, zv, 'z', 'height', tmin, tmax, 'row')
    # the row polygon bounds the columns
    dz = [d for d in dv if q.loop(d.blk) == hz]; dx = [d for d in dv if q.loop(d.blk) == hx]
    if not R.check(len(dz) == 1 and len(dx) == 1, R_FOOT, 'clipping', 'a triangle is not clipped once per row and once per column'): return
    dz, dx = dz[0], dx[0]
    for d, var, ax, axis in ((dz, zv, 'z', 'Z'), (dx, xv, 'x', 'X')):
        a = [nf(y) for y in d.a[3]]
        cut = from_poly(padd(padd(pmul(poly(var), poly(S('cell_size'))), poly(S('aabb.min.' + ax))), poly(S('cell_size'))))
        R.check(same(norm(a[6]), cut), R_FOOT, axis + ' / plane', 'the polygon is cut at %s' % shown(norm(a[6]))[:160])
        k = a[7].a[2] if a[7].op == 'agg' else None
        dd = FL.discr_of(a[7].a[1], k) if k else None
        R.check(dd == 'xyz'.index(ax), R_FOOT, axis + ' / axis', 'the polygon is cut across %s' % shown(a[7])[:60])
        R.check(always_in(q, d.blk, var.a[0]), R_FOOT, axis + ' / always', 'the polygon is not cut in every pass')
    def extreme(v, op, ax, d, label):
        """v is the extreme of the polygon the clipping d put out -> vertex reader"""
        T = mk('sym', 't')
        y, a, l, why = fold_from(q, v, op, T)
        if not R.check(y is not None, R_FOOT, label, '%s: %s' % (label, why)): return False
        cnt = nf(l); ok = cnt.op == 'after' and cnt.a[1] == 3 and same_site(cnt, d)
        R.check(ok, R_FOOT, label + ' / count', '%s is taken over %s vertices' % (label, shown(cnt)[:80]))
        off = offset(d.a[3][2]); p = nf(y)
        good = p.op == 'fld' and p.a[1] == ax and nf(p.a[0]).op in ('elem', 'sel')
        if good:
            idx = nf(p.a[0]).a[1]; idx = nf(idx[-1] if isinstance(idx, tuple) else idx)
            good = off is not None and same(idx, from_poly(padd(poly(off), poly(T)))) and any(z.op == 'after' and same_site(z, d) for z in walk_nodes(p)) 
        R.check(good, R_FOOT, label, '%s is taken over %s' % (label, shown(p)[:160]))
        return good
    en, _ = q.entry_args(xv)
    xs = [y for y in walk_nodes(nf(en[0])) if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hz, hx)] if len(en) == 1 else []
    up = next((q.upper(xv, b) for b in sorted(q.loops[hx]) if q.upper(xv, b) is not None), None)
    xe = [y for y in walk_nodes(nf(up)) if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hz, hx)] if up is not None else []
    if R.check(len(set(xs)) == 1 and len(set(xe)) == 1, R_FOOT, 'columns', 'the columns do not stem from the row polygon'):
        extreme(xs[0], 'mins', 'x', dz, 'the left end of a row'); extreme(xe[0], 'maxs', 'x', dz, 'the right end of a row')
        check_range(hx, xv, 'x', 'width', xs[0], xe[0], 'column')
        def cell(v): return norm(mk('toint', 'i32', from_poly(pmul(padd(poly(v), poly(S('aabb.min.x')), -1), {((S('cell_size'), -1),): 1}))))
        x0, x1 = cell(xs[0]), cell(xe[0])
    else: x0 = x1 = None
    # when a cell is skipped
    ph = [y for y in walk_nodes(span) if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hz, hx)]
    lo = {y for y in walk_nodes(nf(sp.get('min', span))) if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hz, hx)}
    hi = {y for y in walk_nodes(nf(sp.get('max', span))) if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hz, hx)} - lo
    if R.check(len(lo) == 1 and len(hi) == 1, R_SPAN, 'extent', 'a span does not stem from the clipped polygon'):
        lo, hi = lo.pop(), hi.pop()
        extreme(lo, 'mins', 'y', dx, 'the bottom of a span'); extreme(hi, 'maxs', 'y', dx, 'the top of a span')
        smin, smax = norm(sp['min']), norm(sp['max'])
        by = from_poly(padd(poly(S('aabb.max.y')), poly(S('aabb.min.y')), -1)); ich = {((S('cell_height'), -1),): 1}
        rel = lambda v: from_poly(padd(poly(v), poly(S('aabb.min.y')), -1))
        def find_(v, k):
            return [y for y in walk_nodes(v) if y.op == 'call' and strip_gen(y.a[0]).split('::')[-1] == k or y.op == k]
        arg = lambda y: nf(y.a[1][0] if y.op == 'call' else y.a[0])
        fl = [arg(y) for y in find_(smin, 'floor')]; ce = [arg(y) for y in find_(smax, 'ceil')]
        low = from_poly(pmul(poly(nf(mk('maxs', (const(0), rel(lo))))), ich))
        top_ = from_poly(pmul(poly(nf(mk('mins', (by, rel(hi))))), ich))
        R.check(len(fl) == 1 and any(same(fl[0], z) for z in variants(low, 'maxs', const(0), rel(lo), ich)), R_SPAN, 'bottom', 'the bottom of a span is rounded down from %s' % [shown(z)[:120] for z in fl])
        R.check(len(ce) == 1 and any(same(ce[0], z) for z in variants(top_, 'mins', by, rel(hi), ich)), R_SPAN, 'top', 'the top of a span is rounded up from %s' % [shown(z)[:120] for z in ce])
        one = from_poly(padd(poly(sp['min']), pconst(1)))
        cl = [z for z in clamped(nf(sp['max']))]
        R.check(any(same(b, one) for v, b, h_ in cl), R_SPAN, 'height', 'a span does not reach at least one voxel above its bottom')
        out = mk('sym', 'out')
        g = q.guard(e.blk, hx); inside = None
        lits_ = list(lits(g)) if lits(g) is not None else None
        kinds = {'loop': 0, 'clip': 0, 'enough': 0, 'left': 0, 'above': 0, 'below': 0}
        R.check(conj(lits_ or [], g), R_FOOT, 'condition form', 'when a cell is filled is not understood: %s' % showf(g)[:200])
        for at, pos in lits_ or []:
            f_ = B.var(at) if pos else B.NOT(at and B.var(at))
            ns = list(walk_nodes(at))
            if any(y is lo for y in ns) or any(y is hi for y in ns):
                fa = norm(at)
                k = 'above' if any(y is hi for y in ns) else 'below'
                want = [B.NOT(fle_(q, const(0), rel(hi))), B.NOT(flt(q, rel(hi), const(0)))] if k == 'above' else [flt(q, by, rel(lo)), fle_(q, rel(lo), by)]
                fn = B.var(fa) if pos else B.NOT(B.var(fa))
                okk = any(equiv(fn, w) for w in (B.NOT(want[0]), want[1]))
                R.check(okk, R_SPAN, 'skipped ' + k, 'a cell is only filled when %s' % showf(fn)[:160]); kinds[k] += 1
            elif any(y.op == 'discr' or y.op == 'call' and strip_gen(y.a[0]).endswith('divide_poly') for y in ns) and not any(y.op == 'after' and y.a[1] == 3 and same_site(y, dx) for y in [z for z in ns if z.op == 'after'][:1]): kinds['clip'] += 1
            elif any(y.op == 'after' and same_site(y, dx) for y in ns):
                cnt = next(y for y in ns if y.op == 'after' and same_site(y, dx))
                kinds['enough'] += 1
                R.check(equiv(f_, q.formula(mk('le', const(3), cnt))) or equiv(f_, B.NOT(q.formula(mk('lt', cnt, const(3))))), R_FOOT, 'enough vertices', 'a cell is only filled when %s' % showf(f_)[:120])
            elif any(y is xv for y in ns):
                inl = implies(q.formula(V.eq(xv, const(0))), f_) and equiv(f_, B.NOT(q.formula(mk('lt', xv, const(0)))))
                if inl: kinds['left'] += 1
                else:
                    kinds['loop'] += 1
                    R.check(up is not None and equiv(f_, q.formula(mk('lt', xv, up))), R_FOOT, 'column condition', 'a cell is only filled when %s' % showf(f_)[:160])
            else: R.fail(R_FOOT, 'other condition', 'a cell is only filled when %s' % showf(f_)[:160])
        R.check(lits_ is not None and all(kinds[k] == 1 for k in ('enough', 'left', 'above', 'below')), R_FOOT, 'conditions', 'when a cell is filled is not as expected (%s): %s' % (', '.join(k for k in ('enough', 'left', 'above', 'below') if kinds[k] != 1), showf(g)[:200]))
    g = q.guard(hx, hz); l2 = lits(g); l2 = None if l2 is None else list(l2); rows = {"z": 0, "n": 0}
    if R.check(l2 is not None, R_FOOT, 'row conditions', 'when a row is filled is not understood: %s' % showf(g)[:200]):
        R.check(conj(l2, g), R_FOOT, 'row condition form', 'when a row is filled is not understood: %s' % showf(g)[:200])
        for at, pos in l2:
            ns = list(walk_nodes(at)); f_ = B.var(at) if pos else B.NOT(B.var(at)); fn = B.var(norm(at)) if pos else B.NOT(B.var(norm(at)))
            if any(y.op == 'discr' for y in ns): pass
            elif any(y is zv for y in ns) and not any(y.op == 'after' for y in ns):
                upz = next((q.upper(zv, b) for b in sorted(q.loops[hz]) if q.upper(zv, b) is not None), None)
                R.check(equiv(f_, B.NOT(q.formula(mk('lt', zv, const(0))))) or upz is not None and equiv(f_, q.formula(mk('lt', zv, upz))), R_FOOT, 'row condition', 'a row is only filled when %s' % showf(f_)[:160])
                rows['z'] += equiv(f_, B.NOT(q.formula(mk('lt', zv, const(0)))))
            elif x0 is not None and any(y is xs[0] or y is xe[0] for y in ns):
                want = [B.NOT(q.formula(mk('lt', x1, const(0)))), q.formula(mk('lt', x0, S('width')))]
                R.check(any(equiv(fn, w) for w in want), R_FOOT, 'row outside', 'a row is only filled when %s' % showf(fn)[:200])
            elif any(y.op == 'after' and same_site(y, dz) for y in ns):
                cnt = next(y for y in ns if y.op == 'after' and same_site(y, dz))
                lp = [y for y in ns if y.op == 'phi' and y.a[0] in q.loops and y.a[0] not in (hx, hz)]
                rows['n'] += not lp
                R.check(bool(lp) or equiv(f_, B.NOT(q.formula(mk('lt', cnt, const(3))))), R_FOOT, 'enough vertices', 'a row is only filled when %s' % showf(f_)[:120])
            elif any(y.op == 'call' and strip_gen(y.a[0]).endswith('divide_poly') for y in ns): pass
            elif any(y.op == 'exit' for y in ns): pass
            else: R.fail(R_FOOT, 'other row condition', 'a row is only filled when %s' % showf(f_)[:160])
        R.check(rows['n'] == 1, R_FOOT, 'enough vertices', 'a row is filled without looking at the number of vertices left')
        R.check(rows['z'] == 1, R_FOOT, 'row before the field', 'the row before the field is filled')
    # a triangle is only left out when it lies outside the bounds
    g = q.facts(hz); want = True
    for ax in 'xyz':
        for a, b in ((S('aabb.min.' + ax), minmax(tri, 'maxs', ax)), (minmax(tri, 'mins', ax), S('aabb.max.' + ax))):
            want = B.AND(want, fle_(q, a, b))
    gn = q.fsubst(g, {y: norm(y) for at in fatoms(g) for y in walk_nodes(at) if y.op == 'fld' and norm(y) is not y}) if not isinstance(g, bool) else g
    R.check(equiv(gn, want), R_FOOT, 'outside', 'a triangle is rasterised when %s' % showf(gn)[:300])
def variants(v, op, a, b, ich):
    yield v
    yield from_poly(pmul(poly(mk(op, (a, b))), ich)); yield from_poly(pmul(poly(mk(op, (b, a))), ich))
    yield mk(op, (from_poly(pmul(poly(a), ich)), from_poly(pmul(poly(b), ich))))
def conj(ls, g):
    t = True
    for at, pos in ls: t = B.AND(t, B.var(at) if pos else B.NOT(B.var(at)))
    return equiv(t, g)
def minmax(tri, op, ax):
    return nf(mk(op, tuple(fld(V.elem(tri, const(k)), ax) for k in range(3))))
def always_in(q, blk, h): return all(q.dominates(blk, l) for l in q.latches(h))
def same_site(n, e):
    r = nf(e.a[4])
    return any(y is not None and hasattr(y, 'op') and y.op == 'call' and len(y.a) > 2 and y.a[2] == n.a[0] for y in [r]) 
def offset(v):
    """offset of a slice argument"""
    v = nf(v)
    return nf(v.a[1]) if v.op == 'slice' else const(0)
def fold_from(q, x, op, T):
    """like fold, for 'first element, then the rest'"""
    x = nf(x); h = x.a[0]; en, bk = q.entry_args(x); ys = set()
    if len(en) != 1: return None, None, None, 'it has several origins'
    for b in bk:
        b = nf(b)
        r = [z for z in b.a[0] if z is not x] if b.op == op else []
        if len(r) != 1 or len(b.a[0]) != 2: return None, None, None, 'a pass makes it %s' % shown(b)[:80]
        ys.add(nf(r[0]))
    if len(ys) != 1: return None, None, None, 'passes differ'
    pos, a, b, why = passes(q, h)
    if pos is None: return None, None, None, why
    y = subst(ys.pop(), {z: (T if same(q.induction(z)[0], a) else from_poly(padd(padd(poly(T), poly(a), -1), poly(q.induction(z)[0])))) for z in q.header_phis(h) if q.induction(z) is not None and q.induction(z)[1] == 1})
    e0 = nf(en[0]); lim = num(e0)
    ext = lim is not None and (float(lim) >= MAXF if op == 'mins' else float(lim) <= -MAXF)
    first = num(a)
    if first == 0 and ext or first in (0, 1) and same(e0, subst(y, {T: const(0)})): return y, const(0), nf(b), None
    return None, None, None, 'it starts with %s' % shown(e0)[:100]

# ---------------------------------------------------------------- clipping
def worth(n, m):
    """the number (or truth) a node has when some others are given"""
    if n in m: return m[n]
    if n.op == 'const': return num(n)
    if n.op == 'poly':
        t = 0
        for mono, c in n.a[0]:
            p = c
            for at, e in mono:
                x = worth(at, m)
                if x is None or e < 0: return None
                p *= Fraction(x) ** e
            t += p
        return t
    if n.op in ('flt0', 'fle0', 'le0', 'eq0'):
        x = worth(n.a[0], m)
        if x is None: return None
        return {'flt0': x < 0, 'fle0': x <= 0, 'le0': x <= 0, 'eq0': x == 0}[n.op]
    if n.op == 'not':
        x = worth(n.a[0], m)
        return None if x is None else not x
    if n.op in ('and', 'or', 'xor'):
        x, y = worth(n.a[0], m), worth(n.a[1], m)
        if x is None or y is None: return None
        return bool(x) & bool(y) if n.op == 'and' else bool(x) | bool(y) if n.op == 'or' else bool(x) != bool(y)
    if n.op == 'toint': return worth(n.a[1], m)
    return None
def split(P, R):
    """clipping a polygon at a plane: what each pass over its corners puts where, by the sides of the corner and of the one before"""
    div = find(P, 'divide_poly', None, 'rerecast')
    if not R.check(len(div) == 1, R_SPLIT, 'anchor', 'the function that clips a polygon no longer exists'): return
    q = analyse(P, div[0]); u = q.g.uid
    par = lambda k: mk('param', u, k)
    n = par(2); none = q.formula(V.eq(n, const(0)))
    outs = {}
    st = [e for e in q.events('store') if isinstance(e.a[0], tuple) and not unsat(q.facts(e.blk))]
    oks = [(c, v, e) for c, v, e in results(q) if v.op == 'agg' and v.a[2] == 'Ok']
    R.check(bool(oks), R_SPLIT, 'result', 'clipping never succeeds')
    loop = None
    for k, (arr, cnt) in enumerate(((3, 4), (5, 6))):
        ws = [e for e in st if e.a[0] == (('O', par(cnt)),)]
        done = False
        for e in ws: done = B.OR(done, q.guard(e.blk, None))
        for c, v, e in oks:
            R.check(implies(c, done), R_SPLIT, 'count %d / written' % (k + 1), 'clipping succeeds and leaves the count of part %d as it was when %s' % (k + 1, showf(B.AND(c, B.NOT(done)))[:160]))
        for e in ws:
            for c, v in [(q.guard(e.blk, None), nf(e.a[2]))]:
                w = v
                while w.op in ('toint', 'cast'): w = nf(w.a[-1])
                if num(w) == 0: R.check(implies(c, none), R_SPLIT, 'count %d / empty' % (k + 1), 'part %d is declared empty when %s' % (k + 1, showf(c)[:160])); continue
                if R.check(w.op == 'phi' and w.a[0] in q.loops and k not in outs, R_SPLIT, 'count %d / value' % (k + 1), 'part %d gets the count %s' % (k + 1, shown(w)[:80])):
                    outs[k] = w
    if not R.check(len(outs) == 2 and outs[0].a[0] == outs[1].a[0], R_SPLIT, 'counts', 'the counts of the parts are not counted in one loop'): return
    h = outs[0].a[0]
    for c in outs.values():
        en, bk = q.entry_args(c)
        R.check([num(x) for x in en] == [0], R_SPLIT, 'count / start', 'a count starts with %s' % [shown(x)[:40] for x in en])
    pos, a, b, why = passes(q, h)
    if not R.check(pos is not None and num(a) == 0 and same(b, n), R_SPLIT, 'all', 'not every corner is looked at: %s' % (why or shown(b)[:60])): return
    # the corner before, cyclically
    prevs = []
    for p in q.header_phis(h):
        en, bk = q.entry_args(p)
        if bk and all(same(x, pos) for x in bk) and len(en) == 1:
            if R.check(same(en[0], from_poly(padd(poly(n), pconst(-1)))), R_SPLIT, 'before the first', 'the corner before the first is number %s' % shown(en[0])[:60]): prevs.append(p)
    if not R.check(len(prevs) == 1, R_SPLIT, 'before', 'the corner before another is not known'): return
    prev = prevs[0]
    verts = mk('deref', par(1)); vert = lambda i: V.elem(verts, i)
    # distances to the plane
    ds = [e for e in st if e.a[0][-1] == '[]' and e not in [x for k in (3, 5) for x in st if x.a[0][0] == ('O', par(k))]]
    if not R.check(len(ds) == 1, R_SPLIT, 'distances', 'distances to the plane are stored at %d places' % len(ds)): return
    d = ds[0]; hd = q.loop(d.blk); T = mk('sym', 't')
    p2, a2, b2, why = passes(q, hd) if hd is not None else (None, None, None, 'no loop')
    if not R.check(p2 is not None and num(a2) == 0 and same(b2, n) and every_pass(q, d.blk, hd), R_SPLIT, 'distances / all', 'the distance of some corners is not computed: %s' % why): return
    M = counters(q, hd, T)
    i, v = subst(nf(d.a[1][-1]), M), subst(nf(d.a[2]), M)
    ax = [y for y in walk_nodes(v) if y.op == 'vsel' and nf(y.a[0]) is vert(T)]
    R.check(same(i, T) and len(ax) == 1 and same(v, from_poly(padd(poly(par(7)), poly(ax[0]), -1))), R_SPLIT, 'distances / value', 'the distance of corner %s is %s' % (shown(i)[:30], shown(v)[:120]))
    if len(ax) == 1:
        av = nf(ax[0].a[1])
        while av.op in ('toint', 'cast', 'discr'): av = nf(av.a[0] if av.op == 'discr' else av.a[-1])
        R.check(av is par(8), R_SPLIT, 'distances / axis', 'the distance is measured along %s' % shown(av)[:60])
    key = d.a[0]
    # distances read within the pass
    def dist(y): return y.op in ('elem', 'sel') and nf(y.a[0]).op == 'phi' and nf(y.a[0]).a[1] and nf(y.a[0]).a[1] == key
    seen = set()
    push = {}
    for k, arr in ((0, 3), (1, 5)):
        push[k] = [e for e in st if e.a[0][0] == ('O', par(arr))]
        R.check(all(q.loop(e.blk) == h and e.a[0] == (('O', par(arr)), '[]') for e in push[k]) and bool(push[k]), R_SPLIT, 'part %d / stores' % (k + 1), 'part %d is changed elsewhere' % (k + 1))
    fs = [q.guard(e.blk, h) for k in push for e in push[k]]
    vals = [nf(e.a[2]) for k in push for e in push[k]]
    for x in [at for f in fs if not isinstance(f, bool) for at in fatoms(f)] + vals + [x for c in outs.values() for x in q.entry_args(c)[1]]:
        for y in walk_nodes(x):
            if dist(y): seen.add(y)
    idx = lambda y: nf(y.a[1][-1] if isinstance(y.a[1], tuple) else y.a[1])
    da = [y for y in seen if same(idx(y), pos)]; db = [y for y in seen if same(idx(y), prev)]
    if not R.check(da and db and len(da) + len(db) == len(seen), R_SPLIT, 'sides', 'the sides of a corner and the one before are not what decides'): return
    A, Bv = vert(pos), vert(prev)
    def along(ax):
        pa, pb = poly(fld(A, ax)), poly(fld(Bv, ax)); na, nb = poly(da[0]), poly(db[0])
        inv = {((from_poly(padd(nb, na, -1)), -1),): 1}
        return from_poly(padd(pb, pmul(padd(pa, pb, -1), pmul(nb, inv))))
    cut = [along(x) for x in 'xyz']
    def which(v):
        v = nf(v)
        if same(v, A): return 'A'
        if all(same(fld(v, x), w) for x, w in zip('xyz', cut)): return 'I'
        return shown(v)[:120]
    want = {(1, 1): ('A', ''), (0, 1): ('A', 'A'), (-1, -1): ('', 'A'), (1, -1): ('IA', ''.join('I')), (0, -1): ('I', 'I'), (-1, 1): ('I', 'IA'), (1, 0): ('A', ''), (0, 0): ('A', 'A'), (-1, 0): ('I', 'IA')}
    SIZES = (Fraction(1, 10 ** 30), Fraction(1), Fraction(10 ** 30))
    def held(f, m):
        """f in the world where the distances have the signs of m"""
        if isinstance(f, bool): return f
        r = {}
        for at in fatoms(f):
            x = worth(at, m)
            if x is not None: r[at] = bool(x)
        return B.restrict(f, r) if r else f
    latch = [p for p in q.latches(h)]
    worlds = sorted({(sa * x, sb * y, sa, sb) for sa, sb in want for x in SIZES for y in SIZES})
    for va, vb, sa, sb in worlds:
        w = want[(sa, sb)]
        m = {y: va for y in da}; m.update({y: vb for y in db})
        name = 'corner %s, one before %s' % tuple('beyond the plane' if z < 0 else 'on the plane' if z == 0 else 'before the plane' for z in (sa, sb))
        for k in (0, 1):
            got = {}; bad = None
            for e in push[k]:
                g = drop_loop(q, e.blk, h, pos, b)
                g = held(g, m)
                if g is False or unsat(g): continue
                if not taut(g): bad = 'also depends on %s' % showf(g)[:120]; continue
                o = from_poly(padd(poly(nf(e.a[1][-1])), poly(outs[k]), -1))
                got[num(o)] = which(e.a[2])
            seq = [got.get(z) for z in range(len(got))]
            okk = bad is None and None not in seq and (seq == list(w[k]) or (sa == 0 and [x.replace('I', 'A') for x in seq] == [x.replace('I', 'A') for x in w[k]]))
            R.check(okk, R_SPLIT, '%s / part %d' % (name, k + 1), 'for a %s, part %d gets %s%s' % (name, k + 1, seq, ', ' + bad if bad else ''))
            # the count grows by what was put there
            ok2 = True
            for p in latch:
                pg = held(q.guard(p, h), m)
                if unsat(pg): continue
                for c, lv in flat_cases(q, nf(q.g.phi_args(outs[k])[p])):
                    c2 = held(c, m)
                    if unsat(B.AND(c2, pg)): continue
                    gr = num(from_poly(padd(poly(nf(lv)), poly(outs[k]), -1)))
                    if gr != len(w[k]): ok2 = (gr, shown(lv)[:80], showf(c2)[:100])
            R.check(ok2 is True, R_SPLIT, '%s / count %d' % (name, k + 1), 'for a %s, the count of part %d changes by %s' % (name, k + 1, ok2))
