import ranges
from lib import *
from grid import *
from checks.c05 import fle, flat_cases
EXPLAIN = ('Value-graph analysis of every function that declares a limit: the conditions under which it returns its error and under which it goes on are computed as formulas over its inputs and '
           'compared with the limit (error exactly if it is exceeded), the values the error carries are compared with the offending ones, and the uses the limit protects are shown to stay in range.')
RULE_IFF = 'an exceeded limit, and nothing else, is reported'
RULE_PAY = 'the error carries the offending value'
RULE_USE = 'what the limit protects stays within it'
def outcomes(q):
    """(condition, kind, error aggregate, value, event) for every way the function returns"""
    for e in q.events('ret'):
        F = q.facts(e.blk)
        for gd, v in flat_cases(q, e.a[0]):
            v = nf(v); k = inner = None
            if v.op == 'agg' and v.a[2] in ('Ok', 'Err', 'Some', 'None'):
                k = v.a[2]; inner = nf(v.a[4][0]) if v.a[4] else None
            yield B.AND(gd, F), k, inner, v, e
def payload(inner):
    """field name -> value of an error aggregate"""
    return dict(zip(inner.a[3] or range(len(inner.a[4])), inner.a[4])) if inner is not None and inner.op == 'agg' else {}
def is_var(inner, name): return inner is not None and inner.op == 'agg' and inner.a[2] == name
def limit(P, R, q, label, variant, exceeded, carries):
    """the function returns Err(variant) exactly if `exceeded`; carries: field -> node"""
    n = 0
    for G, k, inner, v, e in outcomes(q):
        if unsat(G): continue
        if k == 'Err' and is_var(inner, variant):
            n += 1
            R.check(implies(G, exceeded), RULE_IFF, '%s %s' % (label, variant), '%s returns %s although the limit is not exceeded: when %s' % (label, variant, showf(G)[:300]))
            pl = payload(inner)
            for f, w in carries.items():
                ok = any(f == str(g) and same(nf(x), nf(w)) for g, x in pl.items())
                R.check(ok, RULE_PAY, '%s %s.%s' % (label, variant, f), 'the error reports %s, the offending value is %s' % ({str(g): shown(nf(x)) for g, x in pl.items()}, shown(w)))
        else:
            R.check(implies(G, B.NOT(exceeded)), RULE_IFF, '%s otherwise' % label, '%s goes on although the limit behind %s is exceeded: %s when %s' % (label, variant, shown(v)[:120], showf(G)[:300]))
    if n == 0: R.fail(RULE_IFF, '%s %s never' % (label, variant), '%s never returns %s' % (label, variant))
def run(P, R):
    import_span(P, R); builder(P, R); divide(P, R); columns(P, R); regions(P, R); mesh(P, R); ears(P, R)
    R.floor(RULE_IFF, 9); R.floor(RULE_PAY, 6); R.floor(RULE_USE, 6)
def import_span(P, R):
    fn = find1(P, R, 'add_span', 'Heightfield', 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    ins = mk('param', q.g.uid, 2)
    x, z = fld(ins, 'x'), fld(ins, 'z')
    # the columns written
    cols = {}
    for e in q.effects():
        for k in e.keys:
            if k[1:] == ('spans', '[]'): cols.setdefault(nf(e.idxs[0]), []).append(e)
    W = length = None
    for G, k, inner, v, e in outcomes(q):
        if k == 'Err' and is_var(inner, 'ColumnIndexOutOfBounds'):
            pl = {str(a): b for a, b in payload(inner).items()}
            R.check(same(nf(pl.get('x', const(0))), nf(x)), RULE_PAY, 'add_span x', 'x is reported as %s' % shown(pl.get('x')))
            R.check(same(nf(pl.get('y', const(0))), nf(z)), RULE_PAY, 'add_span y', 'y is reported as %s' % shown(pl.get('y')))
            lits = [(a, implies(G, B.var(a))) for a in fatoms(G) if a.op == 'le0']
            for a, t in lits:
                for n in walk_nodes(a):
                    if n.op == 'fld' and n.a[1] == '#len': length = n
                    if n.op == 'fld' and n.a[1] == 'width': W = n
    if length is None or not cols: R.fail(RULE_IFF, 'add_span', 'the bound of the column table is not found in the error condition or no column is written'); return
    for c, es in cols.items():
        R.check(W is not None and same(c, from_poly(padd(poly(x), pmul(poly(z), poly(W))))), RULE_USE, 'add_span column', 'a span is put into column %s' % shown(c))
        exceeded = fle(padd(poly(length), poly(c), -1))
        limit(P, R, q, 'add_span', 'ColumnIndexOutOfBounds', exceeded, {})
        for e in es: R.check(implies(q.facts(e.blk), B.NOT(exceeded)), RULE_USE, 'add_span write', 'a column is written although it may lie outside')
def has_field(a, f): return any(isinstance(x, tuple) and f in x for x in a)
def builder(P, R):
    fn = find1(P, R, 'build', 'HeightfieldBuilder', 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    for G, k, inner, v, e in outcomes(q):
        if k != 'Ok' or inner is None: continue
        pl = {str(a): b for a, b in payload(inner).items()}
        w, h = nf(pl.get('width', const(0))), nf(pl.get('height', const(0)))
        if w.op != 'toint' or h.op != 'toint': R.fail(RULE_USE, 'builder size', 'width and height are %s and %s' % (shown(w), shown(h))); continue
        fw, fh = w.a[1], h.a[1]
        rg = ranges.Ranges(P, q)
        big = []
        for f in (fw, fh):
            # the wide conversions compared with the limit
            c = [n for a in fatoms(G) for n in walk_nodes(a) if n.op == 'toint' and same(n.a[1], f)]
            big.append(c[0] if c else None)
        for nm, f, c in (('width', fw, big[0]), ('height', fh, big[1])):
            ok = c is not None and V.INT_BITS.get(c.a[0], 0) > 16 and implies(G, fle(padd(poly(c), pconst(65535), -1)))
            R.check(ok, RULE_USE, 'builder ' + nm, 'the %s is converted to 16 bits although it may exceed 65535' % nm)
        if None in big: continue
        ex = B.OR(B.NOT(fle(padd(poly(big[0]), pconst(65535), -1))), B.NOT(fle(padd(poly(big[1]), pconst(65535), -1))))
        limit(P, R, q, 'HeightfieldBuilder::build', 'ColumnCountTooLarge', ex, {'width': fw, 'height': fh})
        n = None
        sp = nf(pl.get('spans', const(0)))
        for x in walk_nodes(sp):
            if x.op == 'vecfill': n = nf(x.a[1])
        while n is not None and n.op == 'cast': n = nf(n.a[1])
        prods = [from_poly(pmul(poly(a), poly(b))) for a in toints(fw, q, G) for b in toints(fh, q, G)]
        R.check(n is not None and any(same(n, p) for p in prods), RULE_USE, 'builder columns', 'the column table has %s entries instead of width*height' % shown(n))
def toints(f, q, G):
    s = {}
    for e in q.events('ret'):
        for x in walk_nodes(e.a[0]):
            if x.op == 'toint' and same(x.a[1], f): s[x] = 1
    for a in fatoms(G):
        for x in walk_nodes(a):
            if x.op == 'toint' and same(x.a[1], f): s[x] = 1
    return list(s)
def divide(P, R):
    fn = find1(P, R, 'divide_poly', None, 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    count = None
    for G, k, inner, v, e in outcomes(q):
        if k == 'Err' and is_var(inner, 'TooManyVertices'): count = nf(list(payload(inner).values())[0])
    if count is None: R.fail(RULE_IFF, 'divide_poly TooManyVertices never', 'divide_poly never reports too many vertices'); return
    R.check(count.op == 'param', RULE_PAY, 'divide_poly', 'the error reports %s instead of the number of vertices given' % shown(count))
    limit(P, R, q, 'divide_poly', 'TooManyVertices', B.NOT(fle(padd(poly(count), pconst(12), -1))), {})
    # room for that many distances: every fixed array of distances
    for l in q.f.locals:
        t = l[0]
        if t and t[0] == '[;]' and t[1] == ('f32',) and t[2][0].isdigit():
            R.check(int(t[2][0]) >= 12, RULE_USE, 'divide_poly room', 'only %s distances have room' % t[2][0])
def columns(P, R):
    fn = find1(P, R, 'into_compact', 'Heightfield', 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    n = 0
    rg = ranges.Ranges(P, q)
    for e in q.events('store'):
        if e.a[0][-1] != 'count' or num(e.a[2]) is not None: continue
        n += 1
        x = rg.of(nf(e.a[2]), e.blk, 12)
        R.check(x[1] <= 255, RULE_USE, 'spans per column', 'the number of spans in a column can reach %s, which its 8-bit counter cannot hold' % x[1])
    if n == 0: R.fail(RULE_USE, 'spans per column', 'no span is counted')
    # each report of too many layers names a layer that does not fit
    m = 0
    for G, k, inner, v, e in outcomes(q):
        if k == 'Err' and is_var(inner, 'TooManyLayers'):
            m += 1
            pl = {str(a): nf(b) for a, b in payload(inner).items()}
            R.check(num(pl.get('max_layer_index')) == 62, RULE_PAY, 'into_compact max_layer_index', 'the largest layer is reported as %s' % shown(pl.get('max_layer_index')))
            x = pl.get('layer_index')
            big = num(x) is not None and num(x) > 62 or implies(G, B.NOT(fle(padd(poly(x), pconst(62), -1))))
            R.check(big, RULE_PAY, 'into_compact layer_index', 'the layer %s is reported, which fits' % shown(x))
    if m == 0: R.fail(RULE_IFF, 'into_compact TooManyLayers never', 'into_compact never reports too many layers')
def regions(P, R):
    fn = find1(P, R, 'build_regions', 'CompactHeightfield', 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    m = [1 for G, k, inner, v, e in outcomes(q) if k == 'Err' and is_var(inner, 'RegionIdOverflow') and not unsat(G)]
    R.check(bool(m), RULE_IFF, 'build_regions RegionIdOverflow never', 'build_regions never reports RegionIdOverflow')
    flag = 0x8000
    seen = set(); n = 0
    rg = ranges.Ranges(P, q)
    def go(v, blk):
        nonlocal n
        v = nf(v)
        while v.op == 'fld' and v.a[1] in ('0', '_bits') or v.op == 'agg' and len(v.a[4]) == 1: v = nf(v.a[0] if v.op == 'fld' else v.a[4][0])
        if v.op == 'phi':
            if v in seen: return
            seen.add(v)
            for p, x in q.g.phi_args(v).items():
                if q.live[p]: go(x, p)
            return
        c = num(v)
        if c is not None:
            R.check(c < flag, RULE_USE, 'build_regions first id', 'the first region gets id %s' % c); return
        x = rg.of(v, blk, 12); n += 1
        R.check(x[1] < flag, RULE_USE, 'build_regions ids', 'a region id can reach %s and is then taken for a border region' % x[1])
        R.check(x[1] >= flag - 2, RULE_IFF, 'build_regions RegionIdOverflow', 'RegionIdOverflow is reported although id %s is still free' % (x[1] + 1))
    es = [e for e in q.effects() if any(k[1:2] == ('max_region',) for k in e.keys)]
    for e in es:
        if not any(x is not e and q.dominates(x.blk, e.blk) for x in es): go(e.val, e.blk)
    R.check(n > 0, RULE_USE, 'build_regions ids', 'the region id is never advanced')
def mesh(P, R):
    fn = find1(P, R, 'into_polygon_mesh', 'ContourSet', 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    total = None
    for G, k, inner, v, e in outcomes(q):
        if k == 'Err' and is_var(inner, 'TooManyVertices'):
            pl = {str(a): nf(b) for a, b in payload(inner).items()}
            total = pl.get('actual')
            R.check(num(pl.get('max')) == 65535, RULE_PAY, 'into_polygon_mesh max', 'the limit is reported as %s' % shown(pl.get('max')))
    if total is None: R.fail(RULE_IFF, 'into_polygon_mesh TooManyVertices never', 'into_polygon_mesh never reports too many vertices'); return
    limit(P, R, q, 'into_polygon_mesh', 'TooManyVertices', B.NOT(fle(padd(poly(total), pconst(65535), -1))), {})
    # the total counts the vertices of every contour that has a triangle
    ok = total.op == 'phi' and total.a[0] in q.loops
    if ok:
        ent, _ = q.entry_args(total)
        ok = bool(ent) and all(num(x) == 0 for x in ent)
        lens = []
        for p, x in q.g.phi_args(total).items():
            if p not in q.loops[total.a[0]] or not q.live[p]: continue
            for gd, y in flat_cases_keep(q, x, total):
                F = B.AND(B.AND(gd, q.facts(p)), q.edge(p, total.a[0])); d = padd(poly(y), patom(total), -1)
                if not d: lens.append((F, None)); continue
                a = next(iter(d))
                if len(d) == 1 and d[a] == 1 and len(a) == 1 and a[0][0].op in ('fld', 'sel') and '#len' in str(a[0][0].a) and 'vertices' in str(shown(a[0][0], 9)): lens.append((F, a[0][0]))
                else: ok = False
        L = next((l for F, l in lens if l is not None), None)
        ok = ok and L is not None and all((l is not None) or implies(F, fle(padd(poly(L), pconst(2), -1))) for F, l in lens)
    R.check(ok, RULE_PAY, 'into_polygon_mesh actual', 'the number of vertices reported, %s, is not the sum over all contours with at least 3 vertices' % shown(total))
    # the vertex table has room for exactly that many
    for G, k, inner, v, e in outcomes(q):
        if k != 'Ok' or inner is None or inner.op != 'agg': continue
        vs = payload(inner).get('vertices')
        f = [x for x in walk_nodes(vs) if x.op == 'vecfill' and not same(nf(x.a[1]), const(0))] if vs is not None else []
        R.check(bool(f) and any(same(nf(x.a[1]), total) for x in f), RULE_USE, 'into_polygon_mesh vertices', 'the vertex table has %s entries' % [shown(x.a[1]) for x in f])
def flat_cases_keep(q, v, stop):
    out = [(True, nf(v))]
    for _ in range(6):
        nx = []; ch = False
        for gd, x in out:
            ph = next((y for y in walk_nodes(x) if y.op == 'phi' and y is not stop and y.a[0] not in q.loops and q.cases(y)), None)
            if ph is None: nx.append((gd, x)); continue
            ch = True
            for c, z in q.cases(ph): nx.append((B.AND(gd, c), subst(x, {ph: z})))
        out = nx
        if not ch: break
    return out
def ears(P, R):
    fn = find1(P, R, 'triangulate', None, 'rerecast')
    if not fn: return
    q = analyse(P, fn)
    n = m = 0
    for G, k, inner, v, e in outcomes(q):
        if unsat(G): continue
        left = [a for a in fatoms(G) if a.op == 'le0' and any(x.op == 'phi' for x in walk_nodes(a)) and implies(G, B.OR(B.var(a), B.NOT(B.var(a))))]
        more = None
        for a in left:
            p = poly(a.a[0])
            if p.get((), 0) == -3 and len(p) == 2 and any(len(mm) == 1 and c == 1 and mm[0][0].op == 'phi' for mm, c in p.items()): more = a
        if more is None: R.fail(RULE_IFF, 'triangulate', 'triangulate returns %s without regard to the number of vertices left' % shown(v)); continue
        if k == 'Err':
            n += 1
            R.check(implies(G, B.NOT(B.var(more))), RULE_IFF, 'triangulate error', 'InvalidContour is reported although three vertices are left')
            none = [a for a in fatoms(G) if any(x.op == 'discr' for x in walk_nodes(a)) and implies(G, B.NOT(B.var(a)))]
            R.check(len(none) >= 1, RULE_IFF, 'triangulate error', 'InvalidContour is reported although an ear was found')
        elif k == 'Ok':
            m += 1
            R.check(implies(G, B.var(more)), RULE_IFF, 'triangulate ok', 'triangulate succeeds with more than three vertices left')
    R.check(n > 0 and m > 0, RULE_IFF, 'triangulate InvalidContour never', 'triangulate never reports InvalidContour')
