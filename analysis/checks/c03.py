from grid import *
EXPLAIN = ('Every connection read from a compact span, in every pipeline function after inlining, is followed to the sums it is used in; each must be first-span-of-column C plus connection, '
           'and C must equal the column of the span the connection was read from plus the offset of that direction as a polynomial identity; the column of a span is proved from loop bounds, '
           'inductively for walks, and by checking every stored record for stacks and queues. Lookups must be dominated by the presence of the connection or by a bounds check.')
FUNCS = [('erode_walkable_area', 'CompactHeightfield'), ('build_distance_field', 'CompactHeightfield'), ('build_regions', 'CompactHeightfield'),
         ('build_contours', 'CompactHeightfield'), ('new', 'DetailNavmesh')]
def run(P, R):
    for name, ty in FUNCS:
        path = find1(P, R, name, ty, 'rerecast')
        if not path: continue
        q = analyse(P, path); K = Cols(q); nm = ty + '::' + name
        nbs, odd, atoms = neighbours(q)
        used = set()
        for n, (C, j, dr, a, ca, blks) in nbs.items():
            used.add(a)
            W = K.width(ca)
            if W is None: R.fail('a step lands in the neighbouring column', nm, 'cannot tell the row length of %s' % show(ca, 4)); continue
            Cj = next((c for c in (column_of(q, j, b) for b in blks) if c is not None), None)
            why = direction_ok(q, C, Cj, dr, W) if Cj is not None else None
            if Cj is None: Cj = column_before(q, C, dr, W)
            if Cj is None or why:
                R.fail('a step lands in the neighbouring column', nm, 'a connection in direction %s of span %s is looked up in column %s, which is not one step away in that direction' % (show(dr, 3), show(j, 4), show(C, 6))); continue
            K.why = []
            ok = all([K.prove(j, poly(Cj), b, W) for b in blks])
            R.check(ok, 'a step lands in the neighbouring column', nm + (': dir %d' % num(dr) if num(dr) is not None else ''), 'span %s, whose connection in direction %s is followed to column %s, is not shown to lie in column %s: %s' % (show(j, 4), show(dr, 3), show(C, 6), show(Cj, 6), '; '.join(K.why[:3])))
            # presence
            present = B.NOT(q.formula(V.eq(a, const(63))))
            for b in blks:
                if implies(q.facts(b), present): R.ok('the connection is present when it is followed', nm)
                elif any(w == 'index' for bb, t, w in scan(q) if bb == b): R.fail('the connection is present when it is followed', nm, 'a lookup through direction %s of span %s is reached without the connection being present' % (show(dr, 3), show(j, 4)))
        for x, b in odd.items():
            R.fail('a connection is only added to the first span of a column', nm, 'connection used in %s' % show(x, 5))
        R.check(len(nbs) > 0, 'stages that follow connections', nm, 'no connection is followed in %s any more' % nm)
        R.note(nm, {'connections_followed': len(nbs), 'functions_inlined': len(getattr(q.f, 'inlined', []) or [])})
    bounds(P, R)
def bounds(P, R):
    rule = 'a column is looked up only inside the grid'
    for name in ('filter_ledge_spans', 'into_compact'):
        path = find1(P, R, name, 'Heightfield', 'rerecast')
        if not path: continue
        q = analyse(P, path); nm = 'Heightfield::' + name; k = 0
        for e in q.events('index'):
            i = e.a[1]
            if not isinstance(i, N): continue
            rs = row_split(i)
            if not rs or not rs[1]: continue
            x, z, w = rs
            if w.op == 'fld': h = fld(w.a[0], 'height')
            else: h = mk('phi', w.a[0], w.a[1][:-1] + ('height',), w.a[2])
            k += 1
            bad = [t for t, ok in (('x >= 0', nonneg(q, x, e.blk)), ('x < width', below(q, x, w, e.blk)), ('z >= 0', nonneg(q, z, e.blk)), ('z < height', below(q, z, h, e.blk))) if not ok]
            step = any(a.op not in ('phi',) for m in list(x) + list(z) for a, _ in m)
            R.check(not bad, rule, nm + (' (neighbour)' if step else ''), 'column x=%s z=%s is looked up in %s without %s being established' % (shown(from_poly(x)), shown(from_poly(z)), nm, ', '.join(bad)))
        R.check(k >= 2, rule, nm + ' lookups', 'no column lookups recognised in ' + nm)
