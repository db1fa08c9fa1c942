import ranges
from lib import *
from grid import *
EXPLAIN = ('Value-graph analysis of into_compact with the packing accessors kept opaque: every recorded connection is traced to the spans, column and layer it is computed from, and the conditions '
           'under which it is recorded, left out or reported as an error are compared with the required ones as boolean formulas.')
def agg_some(v):
    if v.op == 'agg' and v.a[2] in ('Some', 'None'): return v.a[2], (v.a[4][0] if v.a[2] == 'Some' else None)
    if v.op == 'agg': return None, None
    return 'Some', v
def le(p): return B.var(mk('le0', from_poly(iscale(p)))) if False else fle(p)
def fle(p):
    """p <= 0 as a formula"""
    m = cmp_nf('lt', from_poly(padd(p, pconst(-1))), const(0))
    if isb(m): return bool(m.a[0])
    return B.NOT(B.var(m.a[0])) if m.op == 'not' else B.var(m)
def run(P, R):
    fn = find1(P, R, 'into_compact', 'Heightfield', 'rerecast')
    names = [find1(P, R, n, 'CompactSpan', 'rerecast') for n in ('set_con', 'con', 'height', 'set_height')]
    if not fn or not all(names): return
    q = analyse(P, fn, opaque=names)
    H, C = mk('param', q.g.uid, 2), mk('param', q.g.uid, 3)
    ranges.narrowing(P, R, analyse(P, fn), 'into_compact')
    open_space(P, R, q)
    some, none = [], []
    for e in q.events('call'):
        if not e.a[0].endswith('::set_con'): continue
        ref, d, v = e.a[2][:3]
        for gd, x in q.values(v):
            k, y = agg_some(x)
            if k is None: R.fail('every write of a connection is understood', shown(x), 'set_con is given %s' % shown(x)); continue
            (some if k == 'Some' else none).append((e, ref, d, gd, y))
    for e in q.events('store'):
        if 'data' in e.a[0] and not isinstance(e.a[0][0], int) or e.a[0][-1] == 'data':
            R.fail('every write of a connection is understood', 'direct write', 'into_compact writes the packed word directly')
    if not some: R.fail('connections are recorded', 'into_compact', 'no connection is ever recorded'); return
    W = width_of(q)
    cols = Cols(q)
    for e, ref, d, gd, y in some: connection(P, R, q, e, ref, d, gd, y, none, H, C, cols)
def width_of(q): return None
def place_of(ref):
    return (ref.a[0], tuple(nf(x) for x in ref.a[1])) if ref.op in ('ref', 'sref') else None
def open_space(P, R, q):
    RULE = 'the open space of a span reaches from its floor to the next span above'
    n = 0
    for e in q.events('call'):
        if not e.a[0].endswith('::set_height'): continue
        n += 1
        v = nf(e.a[2][1])
        ok = None
        for gd, x in flat_cases(q, v):
            x = nf(x)
            while x.op == 'cast': x = nf(x.a[1])
            if not (x.op == 'mins' and len(x.a[0]) == 2 and any(num(y) == 255 for y in x.a[0])): ok = 'is not capped at 255: %s' % shown(x); break
            s = next(y for y in x.a[0] if num(y) != 255)
            if not (s.op == 'sat' and s.a[0] == 'sub'): ok = 'is not the saturating difference of ceiling and floor: %s' % shown(s); break
            top, bot = nf(s.a[1]), nf(s.a[2])
            if not (bot.op == 'fld' and bot.a[1] == 'max'): ok = 'does not start at the top of the solid span: %s' % shown(bot); break
            base = bot.a[0]
            if num(top) == 65535:
                F = B.AND(gd, q.formula(V.eq(V.discr(fld(base, 'next'), 'core::option::Option'), const(1))))
                if not unsat(F): ok = 'is open above although a span follows'; break
            elif not (top.op == 'fld' and top.a[1] == 'min' and 'next' in fieldpath(top)): ok = 'ends at %s' % shown(top); break
            else:
                nxt = nf(fld(fld(base, 'next'), 'Some.0'))
                if not any(same(y, nxt) for y in walk_nodes(top)): ok = 'ends at %s, which is not the span above' % shown(top); break
            yst = [st for st in q.events('store') if st.a[0][-2:] == ('[]', 'y') and q.loop(st.blk) == q.loop(e.blk)]
            vy = {w for st in yst for w in cmp_val(st.a[2])}
            if not yst or not all(same(w, bot) for w in vy): ok = 'is measured from %s, but the floor stored is %s' % (shown(bot), [shown(w) for w in vy]); break
        R.check(ok is None, RULE, 'set_height', 'the height of an open space %s' % ok)
    R.floor(RULE, 1)
def cmp_val(n):
    """strip a clamp to the full range of u16"""
    n = nf(n)
    while n.op in ('mins', 'maxs'):
        r = [x for x in n.a[0] if num(x) not in (0, 65535)]
        if len(r) != 1: return [n]
        n = r[0]
    return [n]
def fieldpath(n):
    s = set()
    for x in walk_nodes(n):
        if x.op == 'fld': s |= set(str(x.a[1]).split('.'))
    return s
def flat_cases(q, v):
    out = [(True, v)]
    for _ in range(6):
        nx = []; ch = False
        for gd, x in out:
            ph = next((y for y in walk_nodes(x) if y.op == 'phi' and q.cases(y)), None)
            if ph is None: nx.append((gd, x)); continue
            ch = True
            for c, z in q.cases(ph): nx.append((B.AND(gd, c), subst(x, {ph: z})))
        out = nx
        if not ch: break
    return out
def connection(P, R, q, e, ref, d, gd, y, none, H, C, cols):
    pl = place_of(ref)
    if pl is None or 'spans' not in pl[0] or len(pl[1]) != 1:
        R.fail('every write of a connection is understood', 'place', 'a connection is written to %s' % shown(ref)); return
    i = pl[1][0]
    F = B.AND(q.facts(e.blk), gd)
    L = nf(y)
    # ---- which neighbour
    lp = poly(L)
    ok_col = None
    for m, c in lp.items():
        pass
    ks = [m[0][0] for m, c in lp.items() if len(m) == 1 and c == 1 and m[0][1] == 1]
    ix = [m[0][0] for m, c in lp.items() if len(m) == 1 and c == -1 and m[0][1] == 1]
    RULE = 'the recorded layer is the position of the neighbour in its own column'
    if len(lp) != 2 or len(ks) != 1 or len(ix) != 1:
        R.fail(RULE, 'layer', 'the recorded layer %s is not (neighbour index - first index of its column)' % shown(L)); return
    k, idx = ks[0], ix[0]
    con_checks(R, q, e, i, k, idx, d, cols)
    h = k.a[0] if k.op == 'phi' else None
    if h not in q.loops: R.fail(RULE, 'loop', 'the neighbour %s is not the position of a loop' % shown(k)); return
    # ---- the two conditions
    lits = [(a, v) for a, v in lits_of(F)]
    hl = cl = None; yi = yk = None
    for a, v in lits:
        if a.op != 'le0': continue
        p = poly(a.a[0])
        if not v: p = padd(pconst(1), p, -1)
        if p.get(((H, 1),)) == 1 and len(p) == 3:
            mn = [m[0][0] for m, c in p.items() if c == -1 and len(m) == 1]; mx = [m[0][0] for m, c in p.items() if c == 1 and len(m) == 1 and m[0][0] is not H]
            if len(mn) == 1 and len(mx) == 1 and mn[0].op == 'mins' and mx[0].op == 'maxs' and len(mn[0].a[0]) == 2 and len(mx[0].a[0]) == 2: hl = (a, v, mn[0].a[0], mx[0].a[0])
        if p.get(((C, 1),)) == -1 and len(p) == 2:
            ab = [m[0][0] for m, c in p.items() if c == 1 and len(m) == 1]
            if len(ab) == 1 and ab[0].op == 'abs': cl = (a, v, ab[0])
    R.check(hl is not None, 'a connection needs the walkable height', 'into_compact', 'no condition of the form min(ceilings) - max(floors) >= walkable_height guards the connection; conditions: %s' % showf(F)[:400])
    climb_lits = []
    if cl: climb_lits = [(cl[0], cl[1])]
    if not hl: return
    ys = list(hl[3])
    yi_n = [x for x in ys if spans_index(x, q, e) is not None and same(spans_index(x, q, e), i)]
    yk_n = [x for x in ys if spans_index(x, q, e) is not None and same(spans_index(x, q, e), k)]
    other = [x for x in ys if x not in yk_n]
    R.check(len(yk_n) == 1 and len(other) == 1 and is_y(yk_n[0]) and of_span(q, other[0], i, ref), 'the walkable height is measured between the two spans', 'floors', 'the higher floor is taken over %s' % [shown(x) for x in ys])
    if len(yk_n) != 1 or len(other) != 1: return
    yk, yi = yk_n[0], other[0]
    good = set()
    for t in hl[2]:
        p = poly(t); good.add(tuple(sorted(('y' if any(same(m[0][0], s) for s in (yi,)) else 'Y' if same(m[0][0], yk) else 'h' if is_height_of(m[0][0], yi) else 'H' if is_height_of(m[0][0], yk) else '?') for m, c in p.items() if c == 1 and len(m) == 1)) if all(c == 1 and len(m) == 1 for m, c in p.items()) else ('?',))
    R.check(good == {('h', 'y'), ('H', 'Y')}, 'the walkable height is measured between the two spans', 'ceilings', 'the lower ceiling is taken over %s' % [shown(x) for x in hl[2]])
    d_i = from_poly(padd(poly(yk), poly(yi), -1))
    both = B.AND(fle(padd(padd(poly(yk), poly(yi), -1), patom(C), -1)), fle(padd(padd(poly(yi), poly(yk), -1), patom(C), -1)))
    okc = (cl is not None and (same(cl[2].a[0], d_i) or same(cl[2].a[0], from_poly(padd({}, poly(d_i), -1))))) or implies(F, both)
    R.check(okc, 'a connection needs the walkable climb in both directions', 'into_compact', 'no condition |floor difference| <= walkable_climb guards the connection; conditions: %s' % showf(F)[:400])
    # ---- representable
    lower = True
    ind = q.induction(k)
    if ind and ind[1] > 0: lower = fle(padd(poly(ind[0]), patom(k), -1))
    R.check(implies(B.AND(F, lower), fle(padd(lp, pconst(-62)))), 'a recorded layer fits the slot', 'into_compact', 'a layer above 62 can be written into a 6-bit slot; conditions: %s' % showf(F)[:300])
    R.check(implies(B.AND(F, lower), fle(padd({}, lp, -1))), 'a recorded layer fits the slot', 'not negative', 'a negative layer can be recorded')
    # ---- left unconnected otherwise
    nn = [(e2, r2, d2) for e2, r2, d2, g2, _ in none if g2 is True and place_of(r2) is not None and place_of(r2)[0] == pl[0] and same(place_of(r2)[1][0], i) and same(d2, d) and q.dominates(e2.blk, e.blk)]
    RN = 'every direction starts unconnected'
    R.check(bool(nn), RN, 'set_con(None)', 'a direction of a span is not reset to unconnected before neighbours are examined')
    for e2, r2, d2 in nn[:1]:
        rng = whole_range(q, nf(d2))
        R.check(rng is not None and num(rng[0]) == 0 and num(rng[1]) == 4, RN, 'all four directions', 'only directions %s are reset' % (rng and (shown(rng[0]), shown(rng[1])),))
        bad = skipped(q, e2.blk)
        R.check(not bad, RN, 'every span', 'the reset is skipped under a condition: %s' % '; '.join(bad)[:300])
    # ---- running out of layers
    ends(P, R, q, e, h, k, lp, hl, cl if cl else None, both, lower)
def lits_of(f):
    if isinstance(f, bool): return []
    out = []
    for a in B.support(f):
        if B.restrict(f, {a: False}) is False: out.append((a, True))
        elif B.restrict(f, {a: True}) is False: out.append((a, False))
    return out
def is_y(n):
    fr = field_read(n)
    return bool(fr and fr[0] and fr[0][-1] == 'y') or n.op == 'fld' and n.a[1] == 'y'
def whole_range(q, n):
    """range of a loop position right after its loop's own test"""
    for x in [m[0][0] for m in poly(n) if len(m) == 1]:
        if x.op == 'phi' and x.a[0] in q.loops and q.induction(x):
            for s in q.g.succ[x.a[0]]:
                if s in q.loops[x.a[0]]:
                    r = q.range_of(n, s)
                    if r: return r
    return None
def spans_index(n, q, e):
    """index of the span a floor value was read from"""
    fr = field_read(n)
    if fr and fr[2] and 'spans' in fieldpath(n) | keypath(n) | set(ver_key(fr[1]) or ()): return nf(fr[2][-1])
    return None
def keypath(x):
    s = set()
    for y in walk_nodes(x):
        if y.op == 'phi': s |= {str(z) for z in y.a[1]}
        if y.op == 'fld': s |= set(str(y.a[1]).split('.'))
    return s
def of_span(q, n, i, ref):
    """n is the floor of span i (possibly a copy taken after the slot was reset)"""
    j = spans_index(n, q, None)
    if j is not None: return same(j, i)
    # value produced by the opaque write to spans[i]
    return is_y(n) and any(x.op == 'after' or 'after' in str(x.op) for x in walk_nodes(n)) or ('after' in shown(n, 3) and shown(n, 2).endswith('.y'))
def is_height_of(n, y):
    if n.op not in ('call', 'app', 'ucall', 'pure', 'fn', 'opq') and 'height(' not in shown(n, 1): return False
    for a in n.a:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, N):
                if same(fld(b, 'y'), y): return True
    return False
def skipped(q, b):
    """conditions other than loop ranges under which block b is not reached in a pass through its loops"""
    bad = []
    x = b
    for h in q.chain(b):
        g = q.guard(x, h)
        rest = [a for a in fatoms(g) if not range_atom(q, a, h)]
        if rest: bad.append(showf(g))
        x = h
    return bad
def range_atom(q, a, h):
    """a compares the position of loop h with its end"""
    if a.op in ('le0', 'eq0'):
        p = poly(a.a[0])
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'phi' and m[0][0].a[0] == h and q.induction(m[0][0]): return True
    return False
def con_checks(R, q, e, i, k, idx, d, cols):
    RULE = 'the neighbour lies one step away in the direction recorded'
    r = cols_check(q, cols, e, i, k, idx, d)
    R.check(r is None, RULE, 'into_compact', r or '')
def cols_check(q, cols, e, i, k, idx, d):
    """the column whose first index is idx is the one next to the column of i in direction d, and k runs over it"""
    C0 = cell_index(idx)
    if C0 is None: return 'the layer is counted from %s, not from the first span of a column' % shown(idx)
    rg = whole_range(q, k)
    if rg is None: return 'the neighbour %s is not bounded by a column' % shown(k)
    c = cell_of_range(rg)
    if c is None or not same(c, C0): return 'the neighbour ranges over %s..%s, the layer is counted from %s' % (shown(rg[0]), shown(rg[1]), shown(idx))
    ri = whole_range(q, i)
    if ri is None: return 'the span %s is not bounded by a column' % shown(i)
    own = cell_of_range(ri)
    if own is None: return 'the span ranges over %s..%s, which is not a column' % (shown(ri[0]), shown(ri[1]))
    dif = padd(poly(C0), poly(own), -1)
    # x + width*z: the difference must be offx(d) + width*offz(d)
    sx = sz = None; w = None
    for m, c in dif.items():
        at = [a for a, _ in m]
        tab = [a for a in at if a.op == 'elem']
        if len(tab) != 1 or c != 1 or any(x != 1 for _, x in m): return 'the neighbouring column differs by %s' % shown(from_poly(dif))
        rest = [a for a in at if a is not tab[0]]
        if not rest: sx = tab[0]
        else:
            sz = tab[0]; w = rest[0]
    if sx is None or sz is None: return 'the neighbouring column differs by %s' % shown(from_poly(dif))
    for j in range(4):
        vx, vz = (num(nf(subst(t, {nf(d): const(j)}))) for t in (sx, sz))
        if (vx, vz) != (OFFX[j], OFFZ[j]): return 'direction %d leads to offset (%s, %s)' % (j, vx, vz)
    if not is_width(w): return 'rows are %s columns long' % shown(w)
    return None
def is_width(w): return w is not None and w.op == 'fld' and w.a[1] == 'width'
def cell_of_range(rg):
    """lo..hi of the spans of one column -> index of the column"""
    lo, hi = rg[0], rg[1]
    c = cell_index(lo)
    if c is None: return None
    p = padd(poly(hi), poly(lo), -1)
    if len(p) != 1: return None
    (m, co), = p.items()
    if co != 1 or len(m) != 1: return None
    cc = cell_count(m[0][0])
    return c if cc is not None and same(cc, c) else None
def ends(P, R, q, e, h, k, lp, hl, cl, both, lower):
    RULE = 'running out of layers is an error'
    Hf = B.var(hl[0]) if hl[1] else B.NOT(B.var(hl[0]))
    Cf = (B.var(cl[0]) if cl[1] else B.NOT(B.var(cl[0]))) if cl else both
    HC = B.AND(Hf, Cf)
    # the error and the value it depends on
    errs = []
    rets = q.events('ret')
    for r in rets:
        for gd, v in q.values(r.a[0]):
            if v.op == 'agg' and v.a[2] == 'Err': errs.append((r, gd, v))
    R.check(bool(errs), RULE, 'error', 'into_compact never returns an error')
    final = None; T = None
    for r, gd, v in errs:
        for a, s in lits_of(gd):
            if a.op != 'le0': continue
            p = poly(a.a[0])
            if s: continue
            phs = [m[0][0] for m, c in p.items() if len(m) == 1 and c == 1 and m[0][0].op == 'phi']
            if len(phs) == 1 and len([m for m in p if m != ()]) == 1:
                final = phs[0]; T = -p.get((), 0)      # error iff final - T > 0
    clos, leaves = set(), []
    if final is not None:
        st = [final]
        while st:
            x = st.pop()
            if x in clos: continue
            clos.add(x)
            for pr, v in q.g.phi_args(x).items():
                if v.op == 'phi' and v.a[2] == q.g.uid: st.append(v)
                else: leaves.append((x, pr, v))
        for x, pr, v in leaves:
            n = nf(v)
            if n.op == 'maxs' and any(y in clos for y in n.a[0]): continue
            if num(n) is not None and num(n) <= T and not (q.chain(x.a[0]) and pr in q.loops.get(q.chain(x.a[0])[-1], ())): continue
            R.fail(RULE, 'largest layer', 'the largest layer seen so far can be replaced by %s' % shown(v))
    for l in q.latches(h):
        Fl = B.AND(B.AND(B.AND(q.guard(l, h), q.edge(l, h)), lower), HC)
        if unsat(Fl): R.ok(RULE, 'pass without a connection (%d)' % l); continue
        bm = q.back_map(h, l)
        got = None
        for ph, v in bm.items():
            if ph in clos:
                n = nf(v)
                if n.op == 'maxs' and ph in n.a[0]:
                    o = [y for y in n.a[0] if y is not ph]
                    if len(o) == 1 and same(o[0], from_poly(lp)): got = ph
        if got is None:
            R.fail(RULE, 'unconnected although it fits', 'a neighbour that fits and can be climbed is skipped without recording its layer (%s)' % showf(Fl)[:300]); continue
        R.check(implies(Fl, B.NOT(fle(padd(lp, pconst(-T))))), RULE, 'skipped layers are reported', 'a neighbour that fits is skipped although its layer does not exceed the limit %s that is reported: %s' % (T, showf(Fl)[:300]))
    for p in q.loops[h]:
        for s in q.g.succ[p]:
            if s in q.loops[h] or not q.live[s]: continue
            F = B.AND(B.AND(B.AND(q.guard(p, h), q.edge(p, s)), lower), HC)
            inside = [a for a in fatoms(F)]
            if unsat(F) or p == h: continue
            if q.dominates(e.blk, p): R.ok(RULE, 'connected'); continue
            reach = q.reach([s], without={e.blk})
            bad = [r for r in rets if r.blk in reach and not all(v.op == 'agg' and v.a[2] == 'Err' for v in via(q, r.a[0], r.blk, reach))]
            R.check(not bad, RULE, 'left early', 'the search for neighbours can be left without a connection or an error: %s' % showf(F)[:300])

def via(q, n, b, reach):
    """values a returned phi can have on paths inside a set of blocks"""
    if n.op == 'phi' and n.a[2] == q.g.uid and n.a[0] not in q.loops:
        return [x for p, v in q.g.phi_args(n).items() if p in reach for x in via(q, v, p, reach)]
    return [n]
