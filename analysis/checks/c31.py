"""C31: merging of polygons"""
from lib import *
from seqs import *
from conv import *
import cyclic
EXPLAIN = ('The three functions that merge polygons are described on the value graph of the inlined MIR. The condition under which a pair may be merged is compared with "shares an edge, fits, convex at both ends of it" as a boolean formula '
           'over cross products, the corners in it being identified by evaluating their cyclic positions; the shared-edge test is decided for every ordering of the four corner numbers; the search for the best pair and the merge are followed as loops.')
R_PAIR = 'a pair can be merged exactly if it shares an edge, fits and stays convex'
R_EDGE = 'the edge reported is one both polygons have'
R_LEN = 'a pair is rated by the length of the shared edge'
R_BEST = 'of all pairs the one with the longest shared edge is merged'
R_END = 'merging goes on until no pair is left'
R_JOIN = 'the merged polygon has the corners of both, once and in order'
R_COUNT = 'the corners of a polygon are the entries before the first unused one'
NO = 65535
def one(P, n, **kw):
    bs = [b for b in user_bodies(P, {'rerecast'}) if b.get('name') == n and b['kind'] != 'closure']
    return bs[0]['path'] if len(bs) == 1 else None
# ------------------------------------------------------------------ small concrete evaluation
def concrete(q, F, env, depth=24):
    """truth of F where `env` gives numbers to its leaves (None: not determined)"""
    if isinstance(F, bool): return F
    F = q.fsubst(F, env)
    n = 0
    while not isinstance(F, bool):
        n += 1
        if n > 40 or not depth: return None
        for p in {y for a in fatoms(F) if hasattr(a, 'op') for y in walk_nodes(a) if y.op == 'phi' and y not in env}:
            v = value(q, p, env, depth - 1)
            if v is not None: F = q.fsubst(F, {p: v}); break
        else: return None
    return F
def value(q, n, env, depth=24):
    """n as a node with numbers put in and branches decided"""
    n = nf(subst(nf(n), env)) if env else nf(n)
    k = 0
    while n.op == 'phi':
        k += 1
        if k > 40 or not depth or n.a[0] in q.loops: return None
        for c, v in q.cases(n) or []:
            if concrete(q, c, env, depth - 1) is True: n = nf(subst(nf(v), env)); break
        else: return None
    return n
def number(q, n, env, depth=16):
    """the number n stands for (None: not determined)"""
    if not depth: return None
    n = value(q, n, env)
    if n is None: return None
    c = num(n)
    if c is not None: return c if c == int(c) else None
    if n.op in ('rem', 'idiv', 'min', 'max', 'mins', 'maxs'):
        xs = n.a[0] if isinstance(n.a[0], tuple) else n.a
        v = [number(q, x, env, depth - 1) for x in xs]
        if None in v: return None
        if n.op in ('rem', 'idiv'): return None if v[1] == 0 else v[0] % v[1] if n.op == 'rem' else v[0] // v[1]
        return min(v) if n.op.startswith('min') else max(v)
    t = 0
    p = poly(n)
    if len(p) == 1 and list(p) == [((n, 1),)]: return None
    for m, k in p.items():
        for x, e in m:
            v = number(q, x, env, depth - 1)
            if v is None or e < 0: return None
            k = k * v ** e
        t += k
    return int(t) if t == int(t) else None
# ------------------------------------------------------------------ one pair
def run(P, R):
    g, m, c = one(P, 'get_poly_merge_value'), one(P, 'merge_poly_verts'), one(P, 'count_poly_verts')
    top_ = find1(P, R, 'into_polygon_mesh', 'ContourSet', 'rerecast')
    for n, p in (('get_poly_merge_value', g), ('merge_poly_verts', m), ('count_poly_verts', c)): R.check(p is not None, R_PAIR, 'function ' + n, 'the function %s is gone' % n)
    if not (g and m and c and top_): return
    count(P, R, c)
    pair(P, R, g, c)
    join(P, R, m, c)
    search(P, R, top_, g, m)
def count(P, R, path):
    q = analyse(P, path); u = q.g.uid
    p = mk('param', u, 1); cap = mk('param', u, 2)
    rs = results(q); found = other = 0
    for cnd, v, e in rs:
        v = nf(v)
        el = [y for h in q.loops for b in q.loops[h] for s_ in q.g.succ[b] if q.live[s_] for a in atoms_of(q.edge(b, s_)) if hasattr(a, 'op') for y in walk_nodes(a) if y.op in ('elem', 'sel')]
        ok = False
        for y in dict.fromkeys(el):
            i = y.a[1] if y.op == 'elem' else y.a[1][-1]
            unused = q.formula(V.eq(y, const(NO)))
            for t in limits(q, i, p, cap):
                end = B.NOT(q.formula(V.lt(i, t, False)))
                cnd2 = exit_facts(q, cnd)
                if same(v, cap) and implies(cnd2, end): ok = True; other += 1
                elif equal_walk(q, i, v) and implies(cnd2, B.OR(unused, end)): 
                    ok = True; found += 1
                    if not implies(cnd2, unused): other += 1
            if ok: break
        R.check(ok, R_COUNT, 'position', 'count_poly_verts returns %s' % shown(v)[:80])
    R.check(found >= 1 and other >= 1, R_COUNT, 'both', 'count_poly_verts does not return the position of the first unused entry, or else the maximum')
    ends = [h for h in q.loops]
    if R.check(len(ends) == 1, R_COUNT, 'walk', 'the corners are not counted by one walk'):
        h = ends[0]; pos = None
        for ph in header_phis(q, h):
            ind = q.induction(ph)
            if ind and same(ind[0], const(0)) and ind[1] == 1: pos = ph
        R.check(pos is not None, R_COUNT, 'from the start', 'the corners are not counted from the first one')
        # goes on exactly while the entry is used
        for b in q.latches(h):
            f = B.AND(q.guard(b, h), q.edge(b, h))
            R.check(any(a.op and any(num(z) == NO or True for z in [a]) for a in fatoms(f)) and not isinstance(f, bool), R_COUNT, 'goes on', 'the walk does not look at the entries')
            el = [y for a in fatoms(f) if hasattr(a, 'op') for y in walk_nodes(a) if y.op in ('elem', 'sel')]
            R.check(bool(el) and all(implies(f, B.NOT(q.formula(V.eq(y, const(NO))))) for y in el), R_COUNT, 'used entries', 'the walk goes on over an unused entry')
def limits(q, i, p, cap):
    """the numbers the walk may end at: the maximum, or the smaller of it and the length of the list"""
    out = [cap]
    for h in q.loops:
        for b in q.loops[h]:
            up = q.upper(nf(i), b) if nf(i).op == 'phi' else None
            if up is not None:
                up = nf(up)
                if up.op in ('mins', 'min'):
                    xs = up.a[0] if isinstance(up.a[0], tuple) else up.a
                    if any(same(x, cap) for x in xs) and all(same(x, cap) or any(y is p for y in walk_nodes(x)) for x in xs): out.append(up)
    return out
def exit_facts(q, c):
    """c, with what is known of a loop that has been left"""
    return c
def equal_walk(q, i, v):
    """two counters of one loop that always agree"""
    if same(i, v): return True
    i, v = nf(i), nf(v)
    if i.op == 'phi' and v.op == 'phi':
        a, b = q.induction(i), q.induction(v)
        return bool(a and b and i.a[0] == v.a[0] and same(a[0], b[0]) and a[1] == b[1])
    return False
def pair(P, R, path, cnt):
    q = analyse(P, path, {cnt}); u = q.g.uid
    pa, pb, vs, nvp = (mk('param', u, k) for k in (1, 2, 3, 4))
    counts = [e for e in q.events('call') if e.a[0] == cnt]
    def of(par):
        r = [e for e in counts if any(y is par for y in walk_nodes(nf(e.a[3][0]))) and same(e.a[2][1], nvp)]
        return nf(r[0].a[4]) if r else None
    na, nb = of(pa), of(pb)
    if not R.check(na is not None and nb is not None, R_PAIR, 'counts', 'the corners of the two polygons are not counted up to the maximum'): return
    good = []
    for c, v, e in results(q):
        if v.op == 'agg' and v.a[2] == 'Some': good.append((c, nf(v.a[4][0])))
        elif v.op == 'agg' and v.a[2] == 'None': pass
        else: R.fail(R_PAIR, 'result', 'get_poly_merge_value returns %s' % shown(v)[:80])
    if not R.check(len(good) >= 1, R_PAIR, 'merged', 'no pair can be merged'): return
    for c, v in good:
        if not R.check(v.op == 'agg' and len(v.a[4]) == 3, R_PAIR, 'value', 'what is known about a pair is %s' % shown(v)[:60]): continue
        f = dict(zip(v.a[3], v.a[4]))
        if not R.check({'length_squared', 'edge_a', 'edge_b'} <= set(f), R_PAIR, 'fields', 'what is known about a pair has the fields %s' % sorted(f)): continue
        ea, eb, ln = nf(f['edge_a']), nf(f['edge_b']), nf(f['length_squared'])
        conds(R, q, c, ea, eb, na, nb, nvp, pa, pb, vs, ln)
        shared(R, q, c, ea, eb, na, nb, pa, pb)
def corner(q, n, pa, pb, env):
    """polys[idx] -> (1|2, number)"""
    n = nf(n)
    if n.op not in ('elem', 'sel'): return None
    i = n.a[1] if n.op == 'elem' else n.a[1][-1]
    b = base_(n)
    k = 1 if any(y is pa for y in walk_nodes(b)) else 2 if any(y is pb for y in walk_nodes(b)) else None
    x = number(q, i, env)
    return None if k is None or x is None else (k, x)
def base_(n): return nf(n.a[0]) if hasattr(n.a[0], 'op') else n
def verts_in(x, vs):
    """vertices used in an expression: the elements of the vertex list"""
    out = []
    for y in [x] + list(walk_nodes(x)):
        if y.op in ('elem', 'sel') and any(z is vs for z in walk_nodes(base_(y))):
            if y not in out: out.append(y)
    return out
def idx(y): return nf(y.a[1] if y.op == 'elem' else y.a[1][-1])
def role(q, y, ea, eb, na, nb, pa, pb):
    """which corner a vertex is, for all small polygons: a function (na, nb, ea, eb) -> corner"""
    out = {}
    for n1 in (3, 4, 5):
        for n2 in (3, 4, 6):
            for i in range(n1):
                for j in range(n2):
                    env = {na: const(n1), nb: const(n2), ea: const(i), eb: const(j)}
                    r = corner(q, idx(y), pa, pb, env)
                    if r is None: return None
                    out[(n1, n2, i, j)] = r
    return out
def want(fn):
    return {(n1, n2, i, j): fn(n1, n2, i, j) for n1 in (3, 4, 5) for n2 in (3, 4, 6) for i in range(n1) for j in range(n2)}
ROLES = {'a-1': lambda n, m, i, j: (1, (i + n - 1) % n), 'a': lambda n, m, i, j: (1, i), 'a+1': lambda n, m, i, j: (1, (i + 1) % n), 'a+2': lambda n, m, i, j: (1, (i + 2) % n),
         'b-1': lambda n, m, i, j: (2, (j + m - 1) % m), 'b': lambda n, m, i, j: (2, j), 'b+1': lambda n, m, i, j: (2, (j + 1) % m), 'b+2': lambda n, m, i, j: (2, (j + 2) % m)}
SAME = {'b+1': 'a', 'a+1': 'b'}         # the shared edge runs the other way round in the second polygon
def name_of(q, y, *a):
    r = role(q, y, *a)
    if r is None: return None
    for k, fn in ROLES.items():
        if want(fn) == r: return SAME.get(k, k)
    return None
def xz(v): return fld(v, 'x'), fld(v, 'z')
def cross(a, b, c):
    (ax, az), (bx, bz), (cx, cz) = xz(a), xz(b), xz(c)
    sub = lambda x, y: padd(poly(x), poly(y), -1)
    return from_poly(padd(pmul(sub(bx, ax), sub(cz, az)), pmul(sub(cx, ax), sub(bz, az)), -1))
def conds(R, q, c, ea, eb, na, nb, nvp, pa, pb, vs, ln):
    atoms = [a for a in fatoms(c) if hasattr(a, 'op')]
    exp = []; args = (ea, eb, na, nb, pa, pb)
    turn = {}
    for a in atoms:
        ys = verts_in(a, vs)
        if not ys: continue
        turn[a] = {name_of(q, y, *args): y for y in ys}
    tests = {('a-1', 'a', 'b+2'): 'the first end', ('b-1', 'b', 'a+2'): 'the second end'}
    need = q.formula(V.lt(nvp, from_poly(padd(padd(poly(na), poly(nb)), pconst(-2))), False))
    need = B.NOT(need)
    R.check(implies(c, need), R_PAIR, 'fits', 'polygons are merged though the result has more than the allowed number of corners')
    for t, txt in tests.items():
        hit = None
        for a, m in turn.items():
            if set(m) == set(t):
                f = q.formula(V.lt(cross(*[m[k] for k in t]), const(0), False))
                if implies(c, f): hit = f
        if R.check(hit is not None, R_PAIR, 'convex / ' + txt, 'polygons are merged though the result is not convex at %s of the shared edge' % txt): need = B.AND(need, hit)
    # nothing else may prevent it, but that no shared edge was found
    rest = B.exists(c, [a for a in atoms_of(c) if a not in set(atoms_of(need))])
    R.check(equiv(rest, need), R_PAIR, 'nothing else', 'whether a pair can be merged depends on %s' % showf(rest)[:200])
    ys = verts_in(ln, vs); nm = {name_of(q, y, *args): y for y in ys}
    ok = set(nm) == {'a', 'b'}
    if ok:
        (ax, az), (bx, bz) = xz(nm['a']), xz(nm['b'])
        d1, d2 = padd(poly(ax), poly(bx), -1), padd(poly(az), poly(bz), -1)
        ok = same(uncast_(ln), from_poly(padd(pmul(d1, d1), pmul(d2, d2))))
    R.check(ok, R_LEN, 'length', 'a pair is rated by %s' % shown(ln)[:160])
def uncast_(n):
    n = nf(n)
    while n.op == 'cast': n = nf(n.a[-1]) if hasattr(n.a[-1], 'op') else nf(n.a[0])
    return n
def atoms_of(c): return list(fatoms(c)) if not isinstance(c, bool) else []
def shared(R, q, c, ea, eb, na, nb, pa, pb):
    """every place that sets the edge does so for an edge both have"""
    pairs = set(); seen = set()
    def leaves_(n, cond, blk):
        n = nf(n)
        if n.op != 'phi': return [(n, cond)]
        if n in seen: return []
        seen.add(n)
        if n.a[0] in q.loops:
            if q.induction(n): return [(n, cond)]
            en, bk = q.entry_args(n)
            return [z for v in list(en) + list(bk) for z in leaves_(v, True, None)]
        return [z for k, v in (q.cases(n) or []) for z in leaves_(v, k, None)]
    la = [(n, k) for n, k in leaves_(ea, c, None) if n.op != 'undef']; seen.clear()
    lb = [(n, k) for n, k in leaves_(eb, c, None) if n.op != 'undef']
    if not R.check(len(la) >= 1 and len(la) == len(lb), R_EDGE, 'set together', 'the edges of the two polygons are not set together (%d and %d places)' % (len(la), len(lb))): return
    for (i, ci) in la:
        m = [(j, cj) for j, cj in lb if cj is ci or equiv_(cj, ci)]
        if not R.check(len(m) == 1, R_EDGE, 'both', 'the edge of the first polygon is set when %s, that of the second is not' % showf(ci)[:120]): continue
        j, cj = m[0]
        # every pair of edges is looked at
        full = True
        for x, n, txt in ((i, na, 'first'), (j, nb, 'second')):
            ind = q.induction(x) if x.op == 'phi' else None
            up = q.upper(x, x.a[0]) if ind else None
            ok = bool(ind) and num(nf(ind[0])) == 0 and ind[1] == 1
            if ok: ok = walk_to(q, x, n)
            full = R.check(ok, R_EDGE, 'every edge of the %s polygon' % txt, 'not every edge of the %s polygon is compared' % txt) and full
        if not full: continue
        f = ci
        els = [y for a in atoms_of(f) for y in close_(q, a) if y.op in ('elem', 'sel') and (any(z is pa for z in walk_nodes(base_(y))) or any(z is pb for z in walk_nodes(base_(y))))]
        ring = {}
        for y in dict.fromkeys(els):
            k = set()
            for n1 in (3, 4, 5):
                for x in range(n1):
                    env = {na: const(n1), nb: const(n1), i: const(x), j: const(x)}
                    r = corner(q, y, pa, pb, env)
                    k.add((r[0], (r[1] - x) % n1) if r else None)
            ring[y] = k.pop() if len(k) == 1 else None
        if not R.check(set(ring.values()) == {(1, 0), (1, 1), (2, 0), (2, 1)}, R_EDGE, 'corners compared', 'the corners compared are not the two ends of an edge of either polygon'): continue
        bad = None
        for w in range(256):
            val = dict(zip([(1, 0), (1, 1), (2, 0), (2, 1)], (w & 3, w >> 2 & 3, w >> 4 & 3, w >> 6 & 3)))
            a0, a1, b0, b1 = (val[k] for k in [(1, 0), (1, 1), (2, 0), (2, 1)])
            if a0 == a1 or b0 == b1: continue
            env = {y: const(10 + val[k]) for y, k in ring.items()}
            f2 = B.exists(f, [a for a in atoms_of(f) if not any(y in ring for y in close_(q, a))])
            r = concrete(q, f2, env)
            if r is None: bad = 'cannot be decided for corners %s' % (val,)
            elif r and {a0, a1} != {b0, b1}: bad = 'takes two different edges for one'
            elif not r and a0 == b1 and a1 == b0: bad = 'overlooks an edge both have'
            if bad: break
        R.check(bad is None, R_EDGE, 'comparison', 'the comparison of two edges %s' % bad)
def equiv_(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    return equiv(a, b)
def close_(q, a):
    """nodes of an atom, with the choices in it opened up"""
    out = []; todo = [a] if hasattr(a, 'op') else []; seen = set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n); out.append(n)
        for y in walk_nodes(n):
            if y in seen: continue
            if y.op == 'phi' and y.a[0] not in q.loops:
                seen.add(y)
                for k, v in q.cases(y) or []:
                    todo.append(nf(v)); todo += [z for z in atoms_of(k) if hasattr(z, 'op')]
            else: seen.add(y); out.append(y)
    return out
def walk_to(q, x, n):
    """the loop with induction variable x ends with x >= n (or when something was found)"""
    h = x.a[0]
    f = q.formula(V.lt(x, n, False))
    conts = [q.edge(b, s) for b in q.loops[h] for s in q.g.succ[b] if q.live[s] and s not in q.loops[h]]
    for b in q.loops[h]:
        for s in q.g.succ[b]:
            if s in q.loops[h] or not q.live[s]: continue
            e = B.AND(q.guard(b, h), q.edge(b, s))
            # leaving without anything found only at the end
            if implies(e, B.NOT(f)): return all(implies(B.AND(q.guard(p, h), q.edge(p, h)), f) for p in q.latches(h))
    return False
# ------------------------------------------------------------------ joining
def join(P, R, path, cnt):
    q = analyse(P, path, {cnt}); u = q.g.uid
    polys, ia, ib, ea, eb, tmp, nvp = (mk('param', u, k) for k in range(1, 8))
    counts = {}
    for e in q.events('call'):
        if e.a[0] == cnt and same(e.a[2][1], nvp):
            for k, i in (('a', ia), ('b', ib)):
                if off_(e.a[3][0]) is not None and same(off_(e.a[3][0]), i): counts[k] = nf(e.a[4])
    if not R.check(set(counts) == {'a', 'b'}, R_JOIN, 'counts', 'the corners of the two polygons are not counted'): return
    na, nb = counts['a'], counts['b']
    key = (('O', polys), '[]')
    sts = [e for e in q.events('store') if e.a[0] == key]
    ends = {}
    for e in sts:
        h = q.loop(e.blk)
        if not R.check(h is not None and every_pass(q, e.blk, h), R_JOIN, 'always', 'a corner is only sometimes taken over'): continue
        src = nf(e.a[2])
        for k, i0, ed, n in (('a', ia, ea, na), ('b', ib, eb, nb)):
            t = loop_var(q, h)
            if t is None: continue
            x, first, bound = t
            ok = False
            if src.op in ('elem', 'sel'):
                i = idx(src)
                ok = positions(q, i, x, i0, ed, n)
            if ok:
                ends[k] = (e, x, h)
                R.check(num(nf(first)) == 0 and same(bound, from_poly(padd(poly(n), pconst(-1)))), R_JOIN, 'corners of ' + k, 'not all corners but the shared one are taken over from polygon ' + k)
    if not R.check(set(ends) == {'a', 'b'} and len(sts) == 2, R_JOIN, 'both rings', 'the merged polygon is not made of the corners of both, from behind the shared edge on'): return
    # where they go: consecutive, the first ring from the start, the second right behind
    for k, base in (('a', poly(tmp)), ('b', padd(padd(poly(tmp), poly(na)), pconst(-1)))):
        e, x, h = ends[k]
        at = slot(q, nf(e.a[1][-1]), x, h, {'a': None, 'b': ends['a']}[k], na)
        R.check(at is not None and same(at, from_poly(padd(base, poly(x)))), R_JOIN, 'place of ' + k, 'the corners of polygon %s are put at %s' % (k, shown(nf(e.a[1][-1]))[:80]))
    fills = [e for e in q.events('call') if last_(e.a[0]) == 'fill']
    R.check(any(off_(e.a[3][0]) is not None and same(off_(e.a[3][0]), tmp) and num(nf(e.a[2][1])) == NO and all(q.dominates(e.blk, s.blk) and e.blk != s.blk for s in sts) for e in fills) or not fills and False,
            R_JOIN, 'unused entries', 'the entries behind the last corner are not marked unused first')
    cp = [e for e in q.events('call') if last_(e.a[0]) in ('copy_within', 'copy_from_slice', 'clone_from_slice')]
    ok = False
    for e in cp:
        a = [nf(v) for v in e.a[2]]
        if last_(e.a[0]) == 'copy_within' and a[1].op == 'agg':
            r = dict(zip(a[1].a[3], a[1].a[4]))
            ok = ok or same(r.get('start'), tmp) and same(r.get('end'), from_poly(padd(poly(tmp), poly(nvp)))) and same(a[2], ia) and always(q, e.blk) and all(q.dominates(s, e.blk) for s in {x[2] for x in ends.values()})
    R.check(ok, R_JOIN, 'replaces the first', 'the merged polygon does not replace the first of the two')
def last_(n): return strip_gen(n).split('::')[-1]
def off_(v):
    """where a slice of an array begins"""
    v = nf(v)
    while v.op in ('deref', 'ref'): v = nf(v.a[0])
    return nf(v.a[1]) if v.op == 'slice' else None
def loop_var(q, h):
    for ph in header_phis(q, h):
        ind = q.induction(ph)
        if ind and ind[1] == 1:
            for b in q.latches(h):
                f = B.AND(q.guard(b, h), q.edge(b, h))
            up = passes(q, h)
            if up and up[0] is not None and same(up[0], ph): return ph, up[1], up[2]
    return None
def positions(q, i, x, i0, ed, n):
    """i == i0 + (ed + 1 + x) % n, for all small n"""
    for k in (3, 4, 5):
        for a in range(k):
            for t in range(k - 1):
                r = number(q, i, {n: const(k), ed: const(a), x: const(t), i0: const(100)})
                if r != 100 + (a + 1 + t) % k: return False
    return True
def slot(q, i, x, h, prev, na):
    """the place written, over the pass number: running counters replaced by what they stand for"""
    m = {}
    for y in [i] + list(walk_nodes(i)):
        if y.op == 'phi' and y.a[0] == h and y is not x:
            ind = q.induction(y)
            if not ind or ind[1] != 1: return None
            st = nf(ind[0])
            if prev is not None and st.op == 'phi' and st.a[0] == prev[2]:
                i2 = q.induction(st)
                if not i2 or i2[1] != 1: return None
                st = from_poly(padd(padd(poly(i2[0]), poly(na)), pconst(-1)))       # the earlier loop makes na - 1 passes
            m[y] = from_poly(padd(poly(st), poly(x)))
    return nf(subst(i, m)) if m else nf(i)
# ------------------------------------------------------------------ the search
def search(P, R, path, g, m):
    names = 'triangulate count_poly_verts add_vertex can_remove_vertex remove_vertex build_mesh_adjacency'.split()
    ops = {g, m} | {p for n in names for p in [one(P, n)] if p}
    q = analyse(P, path, ops)
    cs = [e for e in q.events('call') if e.a[0] == g]; ms = [e for e in q.events('call') if e.a[0] == m]
    if not R.check(len(cs) == 1 and len(ms) == 1, R_BEST, 'calls', 'pairs are rated at %d and merged at %d places' % (len(cs), len(ms))): return
    e, w = cs[0], ms[0]
    nvp = nf(e.a[2][3])
    ch = q.chain(e.blk)
    if not R.check(len(ch) >= 3, R_BEST, 'loops', 'pairs are not looked for in loops'): return
    k, j, rnd = ch[0], ch[1], ch[2]
    R.check(q.chain(w.blk)[:1] == [rnd], R_BEST, 'one merge per search', 'merging does not follow a search of all pairs')
    pk, pj = passes(q, k), passes(q, j)
    R.note('search loops', [str(k), str(j), str(rnd)])
    ok = bool(pk and pj and pk[0] is not None and pj[0] is not None)
    if not R.check(ok, R_BEST, 'walks', 'the polygons are not walked one after the other (%s, %s)' % (pj, pk)): return
    xk, xj = nf(pk[0]), nf(pj[0])
    n = nf(pk[2])
    R.check(n.op == 'phi' and n.a[0] == rnd, R_BEST, 'all polygons', 'the second polygon of a pair ends at %s' % shown(n))
    R.check(num(nf(pj[1])) == 0 and same(pj[2], from_poly(padd(poly(n), pconst(-1)))) or num(nf(pj[1])) == 0 and same(pj[2], n), R_BEST, 'first of a pair', 'the first polygon of a pair runs from %s to %s' % (shown(pj[1]), shown(pj[2])))
    R.check(same(pk[1], from_poly(padd(poly(xj), pconst(1)))), R_BEST, 'second of a pair', 'the second polygon of a pair starts at %s' % shown(pk[1]))
    R.check(every_pass(q, e.blk, k), R_BEST, 'every pair', 'some pairs are left out: %s' % showf(q.guard(e.blk, k))[:120])
    for a, x, t in ((e.a[3][0], xj, 'first'), (e.a[3][1], xk, 'second')):
        o = off_(a)
        R.check(o is not None and same(o, from_poly(pmul(poly(nvp), poly(x)))), R_BEST, t + ' polygon', 'the %s polygon rated is the one at %s' % (t, shown(o) if o is not None else '?'))
    # what the merge is given
    res = nf(e.a[4])
    r = lambda f: [fld(fld(res, 'Some.0'), f), fld(res, 'Some.0.' + f)]
    wantv = {'pa': [xj, from_poly(pmul(poly(nvp), poly(xj)))], 'pb': [xk, from_poly(pmul(poly(nvp), poly(xk)))], 'ea': r('edge_a'), 'eb': r('edge_b')}
    args = {'pa': nf(w.a[2][1]), 'pb': nf(w.a[2][2]), 'ea': nf(w.a[2][3]), 'eb': nf(w.a[2][4])}
    args['pa'], args['pb'] = unscale(args['pa'], nvp), unscale(args['pb'], nvp)
    upd = {}
    for nme, v in args.items():
        u = updates(q, v, rnd)
        if not R.check(u is not None and len(u) == 1, R_BEST, 'the %s merged' % nme, 'what is merged (%s) is not what the best pair had: %s' % (nme, shown(v)[:60])): continue
        c, val = u[0]
        R.check(any(same(val, z) for z in wantv[nme]), R_BEST, 'the %s of the best pair' % nme, 'the best pair is remembered with %s = %s' % (nme, shown(val)[:80]))
        upd[nme] = c
    if len(upd) < 4: return
    c0 = upd['ea']
    for nme, c in upd.items(): R.check(equiv(c, c0), R_BEST, nme + ' with the others', 'the parts of the best pair are not remembered together')
    some = B.AND(True, q.formula(is_(res, 'Some')))
    R.check(implies(c0, some), R_BEST, 'mergeable', 'a pair is remembered though it cannot be merged')
    # the rating the new one is compared with
    ln = r('length_squared')
    best = None
    for a in atoms_of(c0):
        for ph in walk_nodes(a):
            if ph.op == 'phi' and ph.a[0] == k:
                u = updates(q, ph, rnd)
                if u and len(u) == 1 and any(same(u[0][1], z) for z in ln): best = (ph, u[0][0])
    if not R.check(best is not None, R_BEST, 'best so far', 'a pair is not compared with the best one so far'): return
    ph, cb = best
    R.check(equiv(cb, c0), R_BEST, 'rating with the others', 'the rating of the best pair is not remembered with it')
    better = [q.formula(V.lt(ph, z, False)) for z in ln]
    cc = drop_atom(q, c0, some)
    extra = B.exists(cc, [a for a in atoms_of(cc) if not any(z in walk_nodes(a) for z in ln)])
    R.check(any(implies(c0, b) for b in better) and any(implies(b, extra) for b in better), R_BEST, 'longer', 'a pair replaces the best one so far when %s' % showf(cc)[:160])
    # the round goes on exactly if one was found
    init = [v for v in entries(q, ph, j)]
    f = q.guard(w.blk, rnd)
    at0 = {}
    # value of the best rating once the search is over
    over = [x for x in header_phis(q, j) if x.a[1] == ph.a[1]]
    R.check(bool(init) and all(num(nf(v)) == 0 for v in init), R_END, 'from nothing', 'the search starts with a best rating of %s' % [shown(v) for v in init])
    if R.check(len(over) == 1, R_END, 'over', 'the result of the search is not understood'):
        some_found = q.formula(V.lt(const(0), over[0], False)); not0 = B.NOT(q.formula(V.eq(over[0], const(0))))
        found = [some_found, not0]; keep = {over[0]}
        # an option that is set along with the best pair, and empty before
        for y in {y for a in atoms_of(f) for y in walk_nodes(a) if y.op == 'phi' and y.a[0] == j}:
            u = updates(q, y, rnd); st = entries(q, y, j)
            if u and len(u) == 1 and equiv(u[0][0], c0) and u[0][1].op == 'agg' and u[0][1].a[2] == 'Some' and st and all(x.op == 'agg' and x.a[2] == 'None' for x in st):
                found.append(q.formula(is_(y, 'Some'))); keep.add(y)
        fx = B.exists(f, [a for a in atoms_of(f) if not any(y in keep for y in walk_nodes(a))])
        R.check(any(equiv(fx, z) for z in found), R_END, 'merge', 'a merge happens when %s' % showf(f)[:120])
        for b in q.latches(rnd):
            l = B.AND(q.guard(b, rnd), q.edge(b, rnd))
            R.check(q.dominates(w.blk, b), R_END, 'again', 'the search is repeated though nothing was merged')
        for b in q.loops[rnd]:
            for s in q.g.succ[b]:
                if s in q.loops[rnd] or not q.live[s]: continue
                if q.f.blocks[s].term[0] in ('unreach', 'panic'): continue
                R.check(any(implies(B.AND(q.guard(b, rnd), q.edge(b, s)), B.NOT(z)) for z in found), R_END, 'stop', 'merging ends though a pair was found')
    # merged whenever more than triangles are allowed
    g0 = q.guard(rnd, ch[3]) if len(ch) > 3 else q.facts(rnd)
    f3 = q.formula(V.lt(const(3), nvp, False))
    gx = B.exists(g0, [a for a in atoms_of(g0) if not any(y is nvp for y in walk_nodes(a))]) if not isinstance(g0, bool) else g0
    R.check(gx is True or implies(f3, gx), R_END, 'whenever allowed', 'polygons are only merged when %s' % showf(g0)[:120])
    R.floor(R_BEST, 20); R.floor(R_PAIR, 6); R.floor(R_EDGE, 4); R.floor(R_JOIN, 6); R.floor(R_COUNT, 4); R.floor(R_END, 4)
def is_(v, var): return V.eq(V.discr(v, 'core::option::Option'), const(1 if var == 'Some' else 0))
def unscale(v, nvp):
    p = poly(v); out = {}
    for mono, c in p.items():
        m = dict(mono)
        if m.get(nvp): 
            m[nvp] -= 1
            out[tuple((a, k) for a, k in mono if a is not nvp or m[nvp])] = c
        else: return v
    return nf(from_poly(out))
def updates(q, v, rnd):
    """assignments to a variable that starts each round anew -> [(condition, value)]"""
    out = {}; seen = set()
    def go(n, c):
        n = nf(n)
        if n.op == 'phi' and n.a[0] in q.loops and n.a[0] != rnd and not q.induction(n) and n.a[0] in q.loops[rnd]:
            if n in seen: return
            seen.add(n)
            for x in q.entry_args(n)[0]: go(x, None)
            for b in q.latches(n.a[0]): go(q.g.phi_args(n)[b], B.AND(q.guard(b, n.a[0]), q.edge(b, n.a[0])))
        elif n.op == 'phi' and n.a[0] not in q.loops and q.cases(n):
            for k, x in q.cases(n): go(x, None if c is None else B.AND(c, k))
        elif c is None: pass                     # the value it starts with
        else: out[(nf(n))] = B.OR(out.get(nf(n), False), c)
    go(v, True)
    return [(c, n) for n, c in out.items()]
def entries(q, ph, j):
    out = []
    def go(n):
        n = nf(n)
        if n.op == 'phi' and n.a[0] in q.loops and n.a[1] == ph.a[1]:
            for x in q.entry_args(n)[0]: go(x)
        else: out.append(n)
    go(ph); return out
