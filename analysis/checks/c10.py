"""C10: walks over the edges of polygons and contours are closed"""
from lib import *
from seqs import *
import cyclic
EXPLAIN = 'Every function that computes something over the edges of a polygon or contour is analysed by value graph: a pass over its corners is recognised with the neighbour it pairs each corner with (a remainder, a trailing index or a wrapped-around choice), and start, end, wrap-around and modulus must all stand for the same polygon.'
R_WALK = 'a walk over corners pairs each with its cyclic neighbour, the closing edge included'
R_NEED = 'every computation over edges is such a walk'
R_MOD = 'neighbours are taken modulo the number of corners of the same polygon'
R_JOIN = 'joining two rings takes every entry of each but the shared one'
R_EDGE = 'a triangle has its three edges'
# function -> how many closed walks it must contain
WALKS = {'get_poly_merge_value': 2, 'build_mesh_adjacency': 2, 'into_polygon_mesh': 1, 'remove_vertex': 1, 'can_remove_vertex': 1, 'triangulate': 3,
    'is_diagonal_internal_or_external': 1, 'is_diagonal_internal_or_external_loose': 1, 'simplify_contour': 3, 'remove_degenerate_segments': 1,
    'walk_contour': 1, 'remove_adjacent_neighbours': 1, 'build_poly_detail': 1, 'dist_to_poly': 1, 'on_hull': 1, 'delaunay_hull': 1,
    'poly_min_extent_squared': 1, 'triangulate_hull': 1, 'point_in_poly': 1}
JOINS = {'merge_poly_verts': 2, 'merge_regions': 2}
OTHER = ['in_cone', 'in_cone_loose', 'is_diagonal', 'is_diagonal_loose', 'set_tri_flags']
def run(P, R):
    at = {}
    for n in list(WALKS) + list(JOINS) + OTHER:
        bs = [b for b in user_bodies(P, {'rerecast'}) if b.get('name') == n and b['kind'] != 'closure']
        bs = [b for b in bs if 'chunky' not in b['path']]
        if n == 'walk_contour' and len(bs) > 1: bs = [b for b in bs if 'watershed' in b['path']]
        if R.check(len(bs) == 1, R_NEED, 'function ' + n, 'there are %d functions called %s' % (len(bs), n)): at[n] = bs[0]
    paths = {b['path'] for b in at.values()}
    qs = {n: analyse(P, b['path'], paths - {b['path']}) for n, b in at.items()}
    for n, q in qs.items():
        good = 0
        for h in q.loops:
            seen = set()
            for s in cyclic.steps(q, h):
                if abs(s.d) != 1: continue
                w = cyclic.closed(q, s)
                if R.check(w is None, R_WALK, '%s / %s' % (n, 'next' if s.d == 1 else 'previous'), '%s: %s' % (n, w)) and (h, id(s.x)) not in seen: seen.add((h, id(s.x))); good += 1
        if n in WALKS: R.check(good >= WALKS[n], R_NEED, n, '%s has %d closed walk(s) over edges, not %d' % (n, good, WALKS[n]))
        if n in JOINS: joins(R, n, q)
        moduli(R, n, q)
    if 'triangulate' in qs: counts_passed(R, 'triangulate', qs['triangulate'])
    for n in ('is_diagonal', 'is_diagonal_loose'):
        if n in qs: same_count(R, n, qs[n])
    for n in ('in_cone', 'in_cone_loose'):
        if n in qs: cone(R, n, qs[n])
    if 'set_tri_flags' in qs: edges(R, qs['set_tri_flags'])
    R.floor(R_WALK, 24)
def indexed(q):
    """every element that is read or written: (array, index, event)"""
    if hasattr(q, 'indexed10'): return q.indexed10
    out = []; seen = set()
    for e in q.events():
        L = q.loop(e.blk)
        if e.kind == 'index' and e.a[2] in ('elem', 'model'): out.append((nf(e.a[0]), nf(e.a[1]), e))
        if e.kind == 'store' and e.a[1]: out.append((e.a[0], nf(e.a[1][-1]), e))
        for n in cyclic.e_nodes(e):
            for y in walk_nodes(n):
                if y.op in ('elem', 'sel') and (id(y), L) not in seen:
                    seen.add((id(y), L)); out.append((nf(y.a[0]), nf(y.a[1] if y.op == 'elem' else y.a[1][-1]), e))
    q.indexed10 = out
    return out
def moduli(R, n, q):
    """an array that is indexed cyclically is so with one count only (per loop nest: it may shrink)"""
    by = {}
    for a, i, e in indexed(q):
        for y in walk_nodes(i):
            if y.op == 'rem' and i.op == 'rem' and y is i: by.setdefault((key_of(a), q.chain(e.blk)[-1] if q.chain(e.blk) and n in ('simplify_contour', 'triangulate') else None), [a, []])[1].append(nf(y.a[1]))
    for (_, L), (a, ms) in by.items():
        k = []
        for m in ms:
            if not any(same(m, z) for z in k): k.append(m)
        if n == 'triangulate': k = [m for m in k if not any(cyclic.poly_diff(m, z) == -1 for z in k)]     # (one corner less after an ear is cut)
        R.check(len(k) == 1, R_MOD, n, '%s takes neighbours modulo %s' % (n, ' and '.join(shown(m)[:50] for m in k)))
def key_of(a):
    return a if isinstance(a, tuple) else a.a[1] if a.op == 'phi' else id(a)
def joins(R, n, q):
    """for i in 0..len-1: ring[(shared + 1 + i) % len]"""
    good = 0
    for h in q.loops:
        for x in cyclic.positions(q, h):
            a0 = num(cyclic.starts(q, x)) if cyclic.starts(q, x) is not None else None
            if a0 is None: continue
            done = set()
            for a, i, e in indexed(q):
                if q.loop(e.blk) != h: continue
                i = [y for y in walk_nodes(i) if y.op == 'rem' and any(z is x for z in walk_nodes(y))]
                if len(i) != 1 or id(i[0]) in done: continue
                i = i[0]; done.add(id(i))
                d = {k: v for k, v in padd(padd(poly(i.a[0]), poly(x), -1), pconst(1 - a0), -1).items() if v}
                if x in [z for k in d for z, _ in k]: continue
                w = cyclic.over(q, h, x, nf(from_poly(padd(poly(i.a[1]), pconst(1 - a0), -1))), a0)
                shared = len(d) == 1 and list(d.values()) == [1] and () not in d
                every = all(q.dominates(e.blk, l) for l in q.latches(h))
                if R.check(w is None and shared and every, R_JOIN, n, '%s takes %s of a ring of %s: %s' % (n, shown(i)[:80], shown(i.a[1])[:40], w or ('not in every pass' if shared else 'it does not start right after the shared one'))): good += 1
    R.check(good >= JOINS[n], R_JOIN, n + ' / both', '%s joins %d ring(s)' % (n, good))
def rems(v): return [y for y in walk_nodes(nf(v)) if y.op == 'rem']
def counts_passed(R, n, q):
    for e in q.events('call'):
        c = strip_gen(e.a[0]).split('::')[-1]
        if c not in ('is_diagonal', 'is_diagonal_loose', 'in_cone', 'in_cone_loose'): continue
        k = nf(e.a[3][2])
        ms = [nf(y.a[1]) for v in e.a[3][:2] for y in rems(v)]
        if R.check(bool(ms), R_MOD, '%s / %s' % (n, c), 'the corners %s is asked about are not cyclic neighbours' % c):
            R.check(all(same(m, k) for m in ms), R_MOD, '%s / %s' % (n, c), '%s is asked about corners modulo %s, but told of %s corners' % (c, shown(ms[0])[:50], shown(k)[:50]))
def same_count(R, n, q):
    k = mk('param', q.g.uid, 3); got = 0
    for e in q.events('call'):
        c = strip_gen(e.a[0]).split('::')[-1]
        if not (c.startswith('in_cone') or c.startswith('is_diagonal')): continue
        got += 1
        R.check(same(e.a[3][2], k), R_MOD, '%s / %s' % (n, c), '%s passes on %s corners' % (n, shown(nf(e.a[3][2]))[:60]))
        R.check(same(e.a[3][0], mk('param', q.g.uid, 1)) and same(e.a[3][1], mk('param', q.g.uid, 2)), R_MOD, '%s / %s corners' % (n, c), '%s passes on other corners' % n)
    R.check(got >= 2, R_NEED, n, '%s asks %d of the two questions' % (n, got))
def cone(R, n, q):
    """the corners on both sides of corner i"""
    i, k = mk('param', q.g.uid, 1), mk('param', q.g.uid, 3)
    ds = set()
    for a, ix, e in indexed(q):
        for y in rems(ix):
            d, m = cyclic.rem_step(y, i)
            R.check(d in (1, -1) and same(m, k), R_MOD, n + ' / sides', '%s looks at corner %s' % (n, shown(y)[:80]))
            if d in (1, -1): ds.add(d)
    R.check(ds == {1, -1}, R_NEED, n, '%s does not look at the corners before and after' % n)
def edges(R, q):
    """set_tri_flags: edges 0-1, 1-2, 2-0 of each triangle, in the bits of that edge"""
    want = {(0, 1): 0, (1, 2): 2, (2, 0): 4}; got = {}
    st = [e for e in q.events('store') if e.a[0] and isinstance(e.a[0], tuple) and e.a[0][0] == ('O', mk('param', q.g.uid, 2))]
    if not R.check(len(st) == 1, R_EDGE, 'flags', 'a triangle\'s flags are written by %d statements' % len(st)): return
    v = nf(st[0].a[2])
    for e in q.events('call'):
        if strip_gen(e.a[0]).split('::')[-1] != 'on_hull': continue
        ij = []
        for w in e.a[3][:2]:
            w = nf(w)
            while w.op in ('toint', 'cast', 'wrap'): w = nf(w.a[-1])
            ij.append(num(nf(w.a[1])) if w.op == 'elem' else num(nf(w.a[1][-1])) if w.op == 'sel' else None)
        r = nf(e.a[4])
        got[tuple(None if z is None else int(z) for z in ij)] = r
    R.check(set(got) == set(want), R_EDGE, 'pairs', 'the edges looked at are %s' % sorted(map(str, got)))
    if set(got) != set(want): return
    ats = {k: next(iter(fatoms(q.formula(r)))) for k, r in got.items()}
    for k in want:
        val = flagged(q, v, {ats[j]: j == k for j in want}); none = flagged(q, v, {ats[j]: False for j in want})
        R.check(none == 0 and val == 1 << want[k], R_EDGE, 'edge %d-%d' % k, 'a triangle with edge %d-%d on the hull is flagged %s' % (*k, val))
    h = q.loop(st[0].blk); x = passes(q, h)
    R.check(h is not None and every_pass(q, st[0].blk, h), R_EDGE, 'every triangle', 'not every triangle is flagged')
def flagged(q, v, m):
    for _ in range(8):
        ph = [y for y in walk_nodes(v) if y.op == 'phi' and q.cases(y)]
        if not ph: break
        y = ph[0]; vs = [w for c, w in q.cases(y) if B.restrict(c, m) is not False and not unsat(B.restrict(c, m))]
        if len(vs) != 1: return None
        v = nf(subst(v, {y: vs[0]}))
    return num(v)
