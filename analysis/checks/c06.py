from grid import *
import ranges, sim
EXPLAIN = ('Every write to the two distance arrays is classified on the value graph of the inlined MIR: marking a boundary span (decided by walking the marking loop for every combination of its '
           'four neighbours), or lowering a distance through a neighbour whose offset follows from the connections it was reached by; per sweep the set of (offset, cost) is compared with the eight neighbours, '
           'and the condition of each write with "the connections exist and the new distance is smaller". Conversions must keep values; the erosion threshold is compared with twice the radius.')
FW = {(-1, 0): 2, (-1, -1): 3, (0, -1): 2, (1, -1): 3}
def run(P, R):
    for name, mode in (('erode_walkable_area', 'erode'), ('build_distance_field', 'dist')):
        path = find1(P, R, name, 'CompactHeightfield', 'rerecast')
        if not path: continue
        q = analyse(P, path)
        one(P, R, q, name, mode)
        ranges.narrowing(P, R, q, name)
def span_read(n):
    """n = array[idx] of a plain number array -> (version, idx)"""
    if n.op == 'elem': return n.a[0], nf(n.a[1])
    if n.op == 'sel' and len(n.a[1]) >= 1: return n.a[0], nf(n.a[1][-1])
    return None
def terms(v):
    v = nf(v)
    return list(v.a[0]) if v.op == 'mins' else [v]
def cost_of(t, key):
    """distance of a neighbour plus a constant -> (neighbour index, cost, wraps?)"""
    if t.op == 'sat' and t.a[0] == 'add':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if num(y) is not None and span_read(nf(x)): return span_read(nf(x)) + (num(y), False)
    p = poly(t); c = p.get((), 0); rest = {m: k for m, k in p.items() if m != ()}
    if len(rest) == 1:
        (m, k), = rest.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and span_read(m[0][0]): return span_read(m[0][0]) + (int(c), True)
    return None
def steps(q, n, j, d=4):
    """directions followed from span j to span n -> [(dir node, con atom)] or None"""
    if same(n, j): return []
    nb = neighbour(n)
    if not nb or nb == 'bad' or not d: return None
    r = steps(q, nb[1], j, d - 1)
    return None if r is None else r + [(nb[2], nb[3])]
def small_loops(q, nodes, blk):
    """loop positions over a constant range inside some nodes -> {phi: values}"""
    out = {}
    for n in nodes:
        for x in walk_nodes(n):
            if x.op == 'phi' and x.a[2] == q.g.uid and x.a[0] in q.loops and x not in out:
                r = q.range_of(x, blk)
                if r and num(r[0]) is not None and num(r[1]) is not None and num(r[1]) - num(r[0]) <= 16:
                    out[x] = list(range(num(r[0]), num(r[1])))
    return out
def expand(q, m, todo):
    if not todo: yield dict(m); return
    (x, vs), rest = todo[0], todo[1:]
    for v in vs:
        m2 = dict(m); m2[x] = const(v)
        yield from expand(q, m2, rest)
def one(P, R, q, name, mode):
    RULE = 'each sweep lowers distances through its four neighbours, 2 straight and 3 diagonal'
    relax, zero, others = [], [], []
    keys = set()
    for e in q.events('store'):
        key, idxs, val, old = e.a
        if not key or key[-1] != '[]' or not idxs: continue
        if q.loop(e.blk) is None: continue
        j = nf(idxs[-1])
        got = None; odd = []
        for gd, v in (q.values(nf(val)) if nf(val).op == 'phi' else [(True, val)]):
            for t in terms(v):
                if any(same(t, o) for o in terms(old)): continue     # already applied
                c = cost_of(t, key)
                if c and not same(c[1], j) and neighbour_ish(q, c[1]) and all(x.op == 'phi' or True for x in [c[1]]) and 0 <= c[2] <= 64:
                    got = True
                    relax.append((e, key, j, c, gd, v))
                elif not (num(t) is not None and num(t) >= 65535 or span_read(t) and same(span_read(t)[1], j)): odd.append(t)
        if got:
            keys.add(key)
            for t in odd: R.fail(RULE, name + ' capped', '%s also bounds a propagated distance by %s' % (name, shown(t)))
        else: others.append((e, key, j))
    sweeps = {}
    if not relax:
        R.fail(RULE, name, 'no distance is propagated in %s any more' % name); return
    for e, key, j, (ver, n, c, wraps), gd, v in relax:
        C = column_of(q, j, e.blk)
        rs = row_split(C) if C is not None else None
        dirs = [sweep_dir(q, p, e.blk) for p in rs[:2]] if rs else None
        if not rs or None in dirs or dirs[0] != dirs[1]:
            R.fail('sweeps run through the whole grid in one direction', name, 'the column of span %s is not shown to run over the whole grid forwards or backwards' % shown(j)); continue
        outer = q.chain(e.blk)[-1]
        sw = sweeps.setdefault((outer, dirs[0]), {'set': {}, 'n': 0})
        ph = small_loops(q, [n, from_poly(patom(n))] + [a for a in fatoms(q.guard(e.blk, span_header(q, j, e.blk)))], e.blk)
        ph = {k: vs for k, vs in ph.items() if k.a[0] != span_header(q, j, e.blk)}
        for m in expand(q, {}, list(ph.items())):
            n2 = nf(subst(n, m)) if m else n
            st = steps(q, n2, j)
            if st is None or any(num(d) is None for d, a in st):
                R.fail(RULE, name, 'a distance is taken from span %s, which is not reached from %s by connections' % (shown(n2), shown(j))); continue
            off = (sum(OFFX[num(d) % 4] for d, a in st), sum(OFFZ[num(d) % 4] for d, a in st))
            co = c if not m else c
            cond_ok(R, q, e, key, j, n2, [a for d, a in st], c, v, gd, m, name, off, wraps)
            sw['set'].setdefault(off, set()).add(co); sw['n'] += 1
    seen = {}
    for (outer, d), sw in sweeps.items():
        want = FW if d > 0 else {(-x, -z): c for (x, z), c in FW.items()}
        seen.setdefault(d, []).append(outer)
        for off, c in want.items():
            R.check(sw['set'].get(off) == {c}, RULE, '%s %s (%d,%d)' % (name, 'forward' if d > 0 else 'backward', off[0], off[1]),
                    'the %s sweep of %s takes the distance of the neighbour at (%d,%d) with cost %s instead of %d' % ('forward' if d > 0 else 'backward', name, off[0], off[1], sorted(sw['set'].get(off, [])) or 'none (never read)', c))
        for off in sw['set']:
            R.check(off in want, 'a sweep only reads neighbours it has already visited', '%s %s %s' % (name, 'forward' if d > 0 else 'backward', off), 'the %s sweep of %s reads the neighbour at %s, which it has not visited yet' % ('forward' if d > 0 else 'backward', name, off))
    R.check(sorted(seen) == [-1, 1] and all(len(v) == 1 for v in seen.values()), 'one forward and one backward sweep', name, 'sweeps of %s: %s' % (name, {k: len(v) for k, v in seen.items()}))
    # other writes to the same array
    zs = [(e, key, j) for e, key, j in others if key in keys or any(e.a[0] == k for k in keys)]
    zs = [z for z in zs if num(nf(z[0].a[2])) == 0]
    rest = [(e, key, j) for e, key, j in others if key in keys and num(nf(e.a[2])) != 0]
    for e, key, j in rest:
        R.fail('distances only change by marking boundaries and by propagation', name, '%s also writes %s into the distances' % (name, shown(nf(e.a[2]))))
    if mode == 'dist' and not zs:
        zs = [(e, key, j) for e, key, j in others if num(nf(e.a[2])) == 0 and key[0] != ('*',)]
    boundary(P, R, q, name, mode, zs)
    first = [h for (h, d) in sweeps]
    for e, key, j in zs:
        R.check(all(q.dominates(q.chain(e.blk)[-1], h) for h in first), 'boundaries are marked before the sweeps', name, 'a boundary is marked after a sweep of %s' % name)
    init(R, q, name, relax, keys)
    if mode == 'erode': threshold(R, q, name, keys)
    elem_bits(R, q, name, relax)
def neighbour_ish(q, n):
    return any(con_atom(x) for x in walk_nodes(n)) if n.op == 'poly' else False
def span_header(q, j, b):
    r = q.range_of(j, b)
    return r[3] if r else None
def sweep_dir(q, p, b):
    """the coordinate runs over a whole side of the grid -> direction"""
    r = q.range_of(from_poly(p), b)
    if not r: return None
    lo, hi, st, h = r
    if num(lo) != 0 or abs(st) != 1: return None
    ok = hi.op == 'fld' and hi.a[1] in ('width', 'height') or hi.op == 'phi' and hi.a[1][-1] in ('width', 'height')
    if not ok: return None
    # nothing but the end of the range may skip a row or column
    return st
def cond_ok(R, q, e, key, j, n, cons, c, v, gd, m, name, off, wraps):
    RULE = 'a distance is lowered whenever the connections exist and it gets smaller'
    h = span_header(q, j, e.blk)
    G = B.AND(q.guard(e.blk, h), gd)
    if m: G = q.fsubst(G, m)
    pres = True
    for a in cons: pres = B.AND(pres, B.NOT(q.formula(V.eq(a, const(63)))))
    if implies(G, B.NOT(pres)): R.fail(RULE, name + ' %s' % (off,), 'unreachable'); return
    lits = {}
    for a in B.support(pres) if not isinstance(pres, bool) else []: lits[a] = B.restrict(pres, {a: True}) is not False
    G2 = B.restrict(G, lits) if not isinstance(G, bool) else G
    # loop positions
    rngs = {}
    for a in (B.support(G2) if not isinstance(G2, bool) else []):
        if range_atom_any(q, a): rngs[a] = in_range_value(q, a, G2)
    G3 = B.restrict(G2, rngs) if rngs else G2
    mono = any(span_read(t) and same(span_read(t)[1], j) for t in terms(v))
    tag = '%s (%d,%d)' % (name, off[0], off[1])
    if mono:
        R.check(G3 is True or only_cmp(q, G3, j), RULE, tag, 'the distance through (%d,%d) is only applied when %s' % (off[0], off[1], showf(G3)))
        R.ok('distances only decrease', tag)
        return
    new, old = nf(v), nf(e.a[3])
    ok = any(equiv(G3, q.formula(x)) for x in (V.lt(new, old), V.neg(V.lt(old, new)))) or only_cmp(q, G3, j, n, c)
    R.check(ok, RULE, tag, 'the distance through (%d,%d) is applied when %s, not exactly when it is smaller' % (off[0], off[1], showf(G3)))
    R.check(ok, 'distances only decrease', tag, 'a distance may grow in %s' % name)
def range_atom_any(q, a):
    if not isinstance(a, N) or a.op not in ('le0', 'eq0'): return False
    p = poly(a.a[0]); phs = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'phi' and m[0][0].a[0] in q.loops and q.induction(m[0][0])]
    return len(phs) >= 1 and all(isinstance(x, tuple) for x in p) and not any(con_atom(at) or (span_read(at) and not cell_index(at) and cell_count(at) is None) for m in p for at, e in m)
def in_range_value(q, a, G):
    return B.restrict(G, {a: False}) is False if B.restrict(G, {a: False}) is False or B.restrict(G, {a: True}) is False else True
def only_cmp(q, G, j, n=None, c=None):
    """G holds exactly when new < old (or <=); new = dist[n] + c"""
    if isinstance(G, bool): return G if n is None else False
    at = fatoms(G)
    if len(at) != 1: return False
    a = next(iter(at))
    if a.op != 'le0': return False
    p = poly(a.a[0])
    olds = [(m, k) for m, k in p.items() if len(m) == 1 and m[0][1] == 1 and span_read(m[0][0]) and same(span_read(m[0][0])[1], j)]
    if len(olds) != 1: return False
    (mo, ko) = olds[0]
    if abs(ko) != 1: return False
    rest = {m: k for m, k in p.items() if m != mo}
    new = {m: k / -ko for m, k in rest.items() if m != ()}
    k0 = rest.get((), 0)
    if len(new) != 1: return False
    (mm, kk), = new.items()
    if kk != 1 or len(mm) != 1: return False
    t = mm[0][0]
    if t.op == 'sat': cc = cost_of(t, None); off = 0
    else:
        cc = cost_of(t, None)
        cc = (span_read(t) + (0, True)) if span_read(t) else None; off = c
    if not cc: return False
    if n is not None and not same(cc[1], n): return False
    if t.op == 'sat' and n is not None and cc[2] != c: return False
    # p = ko*old - ko*t + k0
    T = B.restrict(G, {a: True}) is True; F = B.restrict(G, {a: False}) is True
    if T == F: return False
    add = 0 if t.op == 'sat' else c or 0
    # T: p <= 0 ; F: p >= 1
    if T:   # ko*(old - t) + k0 <= 0
        if ko == -1: need = {add + 1, add}; return k0 in need          # t - old + k0 <= 0 : new < old  (k0 = add+1) or <= (add)
        return False
    if ko == 1: return (1 - k0) in (add + 1, add)                          # old - t + k0 >= 1 : old >= t + 1 - k0
    return False
def boundary(P, R, q, name, mode, zs):
    RULE = 'exactly the boundary spans start at distance zero'
    if not zs: R.fail(RULE, name, 'no boundary is marked in %s' % name); return
    hs = {span_header(q, j, e.blk) if q.range_of(j, e.blk) else None for e, key, j in zs}
    if len(hs) != 1 or None in hs: R.fail(RULE, name, 'the spans marked as boundary in %s are not those of one pass over a column' % name); return
    h = hs.pop(); j = zs[0][2]
    blk = zs[0][0].blk
    C = column_of(q, j, blk); rs = row_split(C) if C is not None else None
    R.check(rs and all(sweep_dir(q, p, blk) for p in rs[:2]), 'boundary marking visits every span', name, 'boundary marking in %s is not shown to visit every span' % name)
    zb = {e.blk for e, key, j2 in zs if same(j2, j)}
    start = [s for s in q.g.succ[h] if s in q.loops[h]]
    if len(start) != 1: R.fail(RULE, name, 'the loop over the spans of a column has %d ways in' % len(start)); return
    outcomes = ['ok', 'absent', 'other']
    import itertools
    n = 0; memo = {}
    for self_ok in ([True, False] if mode == 'erode' else [True]):
        for oc in itertools.product(outcomes, repeat=4):
            if not self_ok and oc != ('ok',) * 4 and n % 7: n += 1; continue
            n += 1
            def decide(a): return classify(q, a, j, oc, self_ok)
            hit = []
            try:
                sim.walk(q, start[0], sim.step_env(q, h, start[0], {}), {h}, decide, lambda b, env: hit.append(b) if b in zb else None)
            except sim.Stuck as ex:
                R.fail(RULE, name, 'whether a span of %s is a boundary depends on something else: %s' % (name, ex)); return
            want = not self_ok or oc != ('ok',) * 4
            if bool(hit) != want:
                R.fail(RULE, name, 'a span %swith neighbours %s is %smarked as boundary by %s' % ('' if self_ok else 'that is not walkable ', ', '.join(oc), '' if hit else 'not ', name)); return
    R.ok(RULE, '%s: %d combinations' % (name, n))
def idx_dir(n, j):
    nb = neighbour(n)
    if nb and nb != 'bad' and same(nb[1], j): return num(nb[2])
    return None
def classify(q, a, j, oc, self_ok):
    if a.op not in ('eq0', 'le0'): return None
    p = poly(a.a[0]); c0 = p.get((), 0)
    at = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
    if any(len(m) != 1 or m[0][1] != 1 for m in p if m != ()): return None
    if len(at) == 1 and con_atom(at[0]):
        jj, d = con_atom(at[0])
        if not same(jj, j) or num(d) is None: return None
        absent = oc[num(d) % 4] == 'absent'
        k = p[((at[0], 1),)]
        if a.op == 'eq0' and k * 63 + c0 == 0: return absent
        if a.op == 'le0':       # 63 - x <= 0
            f = lambda x: k * x + c0 <= 0
            if f(62) != f(63) and len({f(x) for x in range(63)}) == 1: return f(63) if absent else f(0)
        return None
    ar = []
    for x in at:
        y = x
        while y.op == 'fld' and y.a[1] == '0': y = y.a[0]
        fr = field_read(x)
        if not fr or not area_like(x): return None
        ar.append(nf(fr[2][-1]))
    ds = [('self' if same(i, j) else idx_dir(i, j)) for i in ar]
    if a.op == 'eq0' and len(ar) == 1 and c0 == 0:
        if ds[0] == 'self': return not self_ok
        if ds[0] is not None: return oc[ds[0] % 4] == 'other'
    if a.op == 'eq0' and len(ar) == 2 and c0 == 0 and 'self' in ds and sorted(p.values()) == [-1, 1]:
        d = [x for x in ds if x != 'self']
        if len(d) == 1 and d[0] is not None: return oc[d[0] % 4] == 'ok'
    if a.op == 'le0' and len(ar) == 1 and abs(list({k for m, k in p.items() if m != ()})[0]) == 1:
        k = [v for m, v in p.items() if m != ()][0]
        f = lambda x: k * x + c0 <= 0
        if f(0) != f(1) and len({f(x) for x in range(1, 256)}) == 1:
            un = (not self_ok) if ds[0] == 'self' else (oc[ds[0] % 4] == 'other' if ds[0] is not None else None)
            return None if un is None else (f(0) if un else f(1))
    return None
def area_like(x):
    for y in walk_nodes(x):
        if y.op == 'fld' and y.a[1] == 'areas': return True
        if y.op in ('phi', 'lift') and 'areas' in (y.a[1] if isinstance(y.a[1], tuple) else ()): return True
    return False
def bases(q, ver, seen=None):
    seen = seen if seen is not None else set()
    if ver in seen: return set()
    seen.add(ver)
    if ver.op in ('store', 'lift', 'after', 'slice'): return bases(q, ver.a[0] if ver.op != 'after' else ver.a[-1] if isinstance(ver.a[-1], N) else ver.a[0], seen)
    if ver.op == 'phi' and ver.a[2] == q.g.uid:
        r = set()
        for v in q.g.phi_args(ver).values(): r |= bases(q, v, seen)
        return r
    return {ver}
def init(R, q, name, relax, keys):
    RULE = 'every other span starts at the largest distance'
    bs = set()
    for e, key, j, c, gd, v in relax: bs |= bases(q, c[0])
    bad = []
    for b in bs:
        v = b
        if v.op in ('vecfill', 'fillv', 'fill') and any(num(v.a[0]) == ranges.type_range(t)[1] for t in elem_types(q, keys)): continue
        bad.append(shown(v))
    R.check(bs and not bad, RULE, name, 'distances of %s start from %s' % (name, ', '.join(bad) or 'nothing known'))
def threshold(R, q, name, keys):
    RULE = 'erosion removes exactly the spans nearer than twice the radius'
    r = mk('param', q.g.uid, 2)
    hit = 0
    for e in q.effects():
        if e.call is not None: continue
        hit += 1
        h = q.loop(e.ev.blk if hasattr(e.ev, 'blk') else e.blk)
        i = nf(e.idxs[0][-1] if isinstance(e.idxs[0], tuple) else e.idxs[-1])
        rg = q.range_of(i, e.blk)
        okr = rg and num(rg[0]) == 0 and rg[1].op in ('fld', 'phi') and any(x in str(rg[1].a[1]) for x in ('#len',))
        R.check(okr, 'the threshold is applied to every span', name, 'erosion looks at spans %s..%s only' % (shown(rg[0]), shown(rg[1])) if rg else 'cannot tell which spans erosion looks at')
        G = q.guard(e.blk, rg[3]) if rg else q.guard(e.blk)
        rest = {}
        for a in fatoms(G):
            if range_atom_any(q, a) and not any(span_read(at) for m in poly(a.a[0]) for at, x in m): rest[a] = in_range_value(q, a, G)
        G = B.restrict(G, rest) if rest else G
        R.check(thr(q, G, i, r), RULE, name, 'a span is made unwalkable when %s, which is not "distance below twice the erosion radius"' % showf(G))
    R.check(hit >= 1, RULE, name + ' sites', 'erosion writes nothing')
def thr(q, G, i, r):
    if isinstance(G, bool): return False
    at = [a for a in fatoms(G)]
    # an unwalkable span may be skipped: writing it would change nothing
    at2 = [a for a in at if not area_like(a)]
    if len(at2) != 1: return False
    for a in at:
        if area_like(a):
            v = next((x for x in (True, False) if B.restrict(G, {a: x}) is False), None)
            if v is None: return False
            G = B.restrict(G, {a: not v})
    a = at2[0]
    if a.op != 'le0': return False
    p = dict(poly(a.a[0]))
    ds = [(m, k) for m, k in p.items() if len(m) == 1 and m[0][1] == 1 and span_read(m[0][0]) and same(span_read(m[0][0])[1], i)]
    if len(ds) != 1 or abs(ds[0][1]) != 1: return False
    (m, k) = ds[0]; del p[m]
    t = {mm: c * -k for mm, c in p.items()}
    T = B.restrict(G, {a: True}) is True; F = B.restrict(G, {a: False}) is True
    if T == F: return False
    # T: k*d - k*t' <= 0 where p = k*d - k*t
    if T and k == 1: bound = padd(t, pconst(1))                 # d <= t      <=> d < t+1
    elif F and k == -1: bound = t and {mm: c for mm, c in t.items()}   # -d + t >= 1 <=> d < t
    else: return False
    if F and k == -1: bound = t
    two = pmul(pconst(2), patom(r))
    if not padd(bound, two, -1): return True
    if len(bound) == 1:
        (mm, c), = bound.items()
        if c == 1 and len(mm) == 1 and mm[0][0].op == 'sat' and mm[0][0].a[0] == 'mul':
            xs = list(mm[0][0].a[1:3])
            return any(same(x, r) and num(y) == 2 for x, y in (xs, xs[::-1]))
        if c == 1 and len(mm) == 1 and mm[0][0].op == 'sat' and mm[0][0].a[0] == 'add':
            return all(same(x, r) for x in mm[0][0].a[1:3])
    return False
def elem_bits(R, q, name, relax):
    """a sum that can wrap needs an element type the distances of no grid exceed"""
    for e, key, j, c, gd, v in relax:
        if not c[3]: R.ok('adding to a distance cannot wrap', '%s saturates' % name); continue
        tys = {x.a[0] for x in q.events('arith') if nf(x.a[1]) is nf(next((t for t in terms(v) if cost_of(t, key) and same(cost_of(t, key)[1], c[1])), v))}
        R.check(tys and tys <= {'u16', 'u32', 'u64', 'usize', 'i32', 'i64'}, 'adding to a distance cannot wrap', '%s %s' % (name, sorted(tys)), 'a distance of type %s is increased without saturating in %s' % (sorted(tys) or 'unknown', name))
import re
def elem_types(q, keys):
    r = set()
    for k in keys:
        if isinstance(k[0], int):
            m = re.findall(r'\b(u8|u16|u32|u64|i32|usize)\b', show_ty(q.f.locals[k[0]][0]))
            r |= set(m[:1])
    return r
