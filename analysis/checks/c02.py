from lib import *
EXPLAIN = ('Store-effect analysis on a value graph built from the fully inlined MIR of the five walkability passes: every write that leaves the function is listed with its '
           'place, value and the condition it happens under; the low-obstacle pass is additionally checked inductively from one span to the next.')
PASSES = [('filter_low_hanging_walkable_obstacles', 'Heightfield', 'copy'), ('filter_ledge_spans', 'Heightfield', 'down'),
          ('filter_walkable_low_height_spans', 'Heightfield', 'down'), ('erode_walkable_area', 'CompactHeightfield', 'down'),
          ('mark_convex_poly_area', 'CompactHeightfield', 'mark')]
def is_area(path):
    p = [x for x in path if x not in ('0',)]
    return bool(p) and (p[-1] == 'area' or p[-2:] == ['areas', '[]'])
def area_changes(q, e):
    """-> [(path, new, old)] with the full path of each changed component"""
    out = []
    for path, v, o in leaf_changes(e.val, e.old):
        for p0 in e.paths(): out.append((p0 + path, v, o))
    return out
def byte(n):
    """the number inside an area type"""
    return fld(n, '0') if n.op == 'agg' and n.a[1] and n.a[1].endswith('AreaType') else n
def run(P, R):
    for name, ty, kind in PASSES:
        path = find1(P, R, name, ty, 'rerecast')
        if not path: continue
        q = analyse(P, path)
        W = 'only area types are written'
        effs = q.effects(); hit = 0
        for e in effs:
            if e.call is not None:
                R.fail(W, '%s: %s' % (name, short(e.call)), '%s hands the heightfield to %s, which may change more than area types' % (name, e.call)); continue
            for p0, v, o in area_changes(q, e):
                if not is_area(p0):
                    R.fail(W, '%s: .%s' % (name, '.'.join(p0)), '%s writes %s := %s' % (name, '.'.join(p0), shown(v))); continue
                R.ok(W, '%s: .%s' % (name, '.'.join(p0))); hit += 1
                nv = v if p0[-1] == '0' else fld(v, '0')
                ov = o if p0[-1] == '0' else (fld(o, '0') if o is not None else None)
                for gd, x in q.values(nv):
                    if ov is not None and same(x, ov): continue
                    g = B.AND(q.facts(e.blk), gd)
                    if unsat(g): continue
                    if kind == 'down':
                        R.check(num(nf(x)) == 0, 'spans are only made unwalkable', '%s: .%s' % (name, '.'.join(p0)), '%s can set an area to %s' % (name, shown(x)))
                    elif kind == 'mark':
                        R.check(same(x, fld(fld(mk('param', q.g.uid, 2), 'area'), '0')), 'a volume writes its own area', name, '%s writes %s, not the area of the volume' % (name, shown(x)))
                        R.check(ov is not None and implies(g, B.NOT(q.formula(V.eq(ov, const(0))))), 'a volume writes onto walkable spans only', name,
                                '%s can overwrite the area of a span that is not walkable (condition: %s)' % (name, showf(g)[:300]))
                    else: low_obstacle(P, R, q, e, x, ov, g, name, gd)
        if kind == 'copy': R.floor('the copied area is that of the walkable span just below', 1)
        R.check(hit > 0, 'every pass writes an area', name, '%s no longer changes any area' % name)
def low_obstacle(P, R, q, e, x, ov, g, name, gd):
    R.check(implies(g, q.formula(V.eq(ov, const(0)))), 'a low obstacle was unwalkable', name, '%s can overwrite the area of a walkable span' % name)
    h = q.loop(e.blk)
    if h is None: R.fail('the copied area is that of the walkable span just below', name, 'the write is not inside a loop over a column'); return
    G = B.AND(q.guard(e.blk), gd)
    # the first span of a column has nothing below
    em = q.entry_map(h)
    R.check(unsat(q.fsubst(G, em)), 'the lowest span of a column has nothing below it', name, 'the lowest span of a column can be changed (%s)' % showf(q.fsubst(G, em))[:200])
    for l in q.latches(h):
        bm = q.back_map(h, l)
        # memory of the current span and the pointer to it belong to the next span after the step
        cur = {ph for ph in bm if any(isinstance(k, tuple) for k in ph.a[1]) or q_is_ptr(q, ph)}
        prev = {ph: v for ph, v in bm.items() if ph not in cur}
        keep = [a for a in fatoms(G) if not (nodes_phis(a) & cur)]
        Gp = B.exists(G, [a for a in fatoms(G) if a not in keep])
        lg = B.AND(q.guard(l, h), q.edge(l, h))
        nxt = B.AND(lg, q.fsubst(Gp, prev))
        R.check(implies(nxt, B.NOT(q.formula(V.eq(ov, const(0))))), 'the span just below was walkable before this pass', name,
                'a span can be marked because the one below was unwalkable but got marked itself; condition handed on: %s' % showf(nxt)[:300])
        val = subst(x, prev)
        for g2, y in q.values(val):
            if unsat(B.AND(nxt, g2)): continue
            R.check(same(y, ov), 'the copied area is that of the walkable span just below', name, 'the value handed to the next span is %s, the area below is %s' % (shown(y), shown(ov)))
    # climb: some condition bounds max(current) - max(previous) by the climb parameter
    climb = mk('param', q.g.uid, 2); ok = False
    for a in fatoms(G):
        if a.op != 'le0': continue
        for l in q.latches(h):
            bm = {ph: v for ph, v in q.back_map(h, l).items() if not any(isinstance(k, tuple) for k in ph.a[1]) and not q_is_ptr(q, ph)}
            for neg in (False, True):
                F = B.NOT(B.var(a)) if neg else B.var(a)
                if not implies(G, F): continue
                p = poly(a.a[0])
                if neg: p = padd(pconst(1), p, -1)      # not(p<=0)  ->  1-p <= 0
                if p.get(((climb, 1),)) != -1: continue
                rest = padd(p, patom(climb))
                # what remains is max(current) - max(previous)
                pos = [m for m, c in rest.items() if c == 1]; ng = [m for m, c in rest.items() if c == -1]
                if len(rest) == 2 and len(pos) == 1 and len(ng) == 1:
                    pm = subst(ng[0][0][0], bm)
                    if same(pm, pos[0][0][0]) and 'max' in str(shown(pos[0][0][0])): ok = True
    R.check(ok, 'the obstacle is at most the walkable climb above the span below', name, 'no condition of the form max(current) - max(below) <= walkable_climb guards the write')
def nodes_phis(a):
    return {mk('phi', x.a[0], x.a[1][:k], x.a[2]) for x in walk_nodes(a) if x.op == 'phi' for k in range(1, len(x.a[1]) + 1)}
def q_is_ptr(q, ph):
    """a phi that (transitively) is a pointer into the heightfield"""
    def ptr(v, d=3):
        if v.op in ('ref', 'sref'): return True
        if d and v.op == 'agg': return any(ptr(y, d - 1) for y in v.a[4])
        if d and v.op == 'phi': return any(ptr(y, d - 1) for y in q.g.phi_args(v).values() if y is not v)
        return False
    return ptr(ph)
