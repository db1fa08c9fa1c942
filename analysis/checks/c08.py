from conv import *
from seqs import *
from checks.c05 import flat_cases
EXPLAIN = ('The derivation of the settings is evaluated to one formula per field and compared with the formula for that setting; the build of the editor (and the combined rasterisation) is followed backward from the navmesh it stores '
           'through the chain of values the stages produce, which fixes the order of the stages, that each runs exactly once and unconditionally, and which setting each argument is.')
R_DER = 'a setting derives from its own world setting, rounded safely'
R_ORD = 'every stage runs once, in order'
R_ARG = 'every stage receives the setting meant for it'
R_META = 'the data handed on carries the settings it was made with'
CFG = 'NavmeshConfig'
def p_(q, i, *path):
    v = mk('param', q.g.uid, i)
    for x in path: v = mk('deref', v) if x == '*' else fld(v, x)
    return v
def alias(q, i, v):
    """parameter by value or by reference"""
    return subst(v, {mk('deref', mk('param', q.g.uid, i)): mk('param', q.g.uid, i)})
def toint(ty, v): return mk('toint', ty, v)
def fmul(*vs):
    r = pconst(1)
    for v in vs: r = pmul(r, poly(v) if hasattr(v, 'op') else v)
    return r
def rdiv(a, b): return from_poly(pmul(poly(a), {((b, -1),): 1}))
def run(P, R):
    config(P, R); pipeline(P, R); metadata(P, R)
def config(P, R):
    f = find1(P, R, 'build', 'NavmeshConfigBuilder', 'rerecast')
    if not f: return
    q = analyse(P, f)
    rs = results(q)
    if not R.check(rs, R_DER, 'result', 'no configuration is built'): return
    def w(n): return fld(mk('param', q.g.uid, 1), n)
    def quot(a, b): return V.binop('fdiv', w(a), w(b))
    for c, v, e in rs:
        if not R.check(v.op == 'agg' and v.a[1] and v.a[1].endswith(CFG), R_DER, 'result', 'the configuration is %s' % shown(v)[:100]): continue
        got = {n: nf(alias(q, 1, x)) for n, x in zip(v.a[3], v.a[4])}
        def is_(n, *forms):
            if n not in got: R.fail(R_DER, n, 'the configuration has no %s' % n); return
            for c2, x in flat_cases(q, got[n]):
                if unsat(B.AND(c, c2)): continue
                x = nf(alias(q, 1, x))
                R.check(any(f_(x) for f_ in forms), R_DER, n, '%s is %s' % (n, shown(x)[:140]))
        def keep(n, src): is_(n, lambda x: same(x, w(src)))
        for n, s in (('cell_size', 'cell_size'), ('cell_height', 'cell_height'), ('aabb', 'aabb'), ('walkable_slope_angle', 'agent_max_slope'), ('max_simplification_error', 'edge_max_error'), ('contour_flags', 'contour_flags'), ('tile_size', 'tile_size')):
            if n == 'aabb':
                d = [z for z in identity(q, c, got.get(n, v), w(s))]
                R.check(n in got and not d, R_DER, n, 'aabb is changed: %s' % d[:2]); continue
            keep(n, s)
        def rounded(n, how, num_, den):
            def ok(x):
                if not (x.op == 'toint' and x.a[0] == 'u16'): return False
                y = nf(x.a[1]); r = quotient(w(num_), w(den))
                if how == 'ceil': return y.op == 'call' and strip_gen(y.a[0]).split('::')[-1] == 'ceil' and same(y.a[1][0], r) or y.op == 'ceil' and same(y.a[0], r)
                return (y.op == 'call' and strip_gen(y.a[0]).split('::')[-1] in ('floor', 'trunc') and same(y.a[1][0], r)) or y.op == 'floor' and same(y.a[0], r) or same(y, r)
            is_(n, ok)
        rounded('walkable_radius', 'ceil', 'agent_radius', 'cell_size')
        rounded('walkable_height', 'ceil', 'agent_height', 'cell_height')
        rounded('walkable_climb', 'floor', 'agent_max_climb', 'cell_height')
        rounded('max_edge_len', 'floor', 'edge_max_len', 'cell_size')
        for n, s in (('min_region_area', 'region_min_size'), ('merge_region_area', 'region_merge_size')):
            is_(n, lambda x, s=s: x.op == 'toint' and x.a[0] == 'u16' and same(strip_round(x.a[1]), from_poly(fmul(w(s), w(s)))))
        is_('max_vertices_per_polygon', lambda x: x.op == 'toint' and x.a[0] == 'u16' and same(strip_round(x.a[1]), w('verts_per_poly')))
        is_('detail_sample_max_error', lambda x: same(x, from_poly(fmul(w('cell_height'), w('detail_sample_max_error')))))
        r = got.get('walkable_radius')
        if r is not None and 'border_size' in got:
            d = padd(poly(got['border_size']), poly(r), -1)
            k = d.get((), 0) if set(d) <= {()} else None
            R.check(k is not None and k >= 3, R_DER, 'border_size', 'the border is %s, not the radius plus padding' % shown(got['border_size'])[:120])
            two = padd(patom(w('tile_size')) if False else poly(w('tile_size')), {m: 2 * z for m, z in poly(got['border_size']).items()})
        # detail sampling distance: none when finer than a cell
        seen = set()
        if 'detail_sample_dist' in got:
            for c2, x in flat_cases(q, got['detail_sample_dist']):
                x = nf(alias(q, 1, x)); g = B.AND(c, c2)
                if unsat(g): continue
                if num(x) == 0:
                    seen.add('none')
                    ats = [a for a in fatoms(g) if a.op.startswith(('lt', 'flt', 'fle')) or 'lt' in a.op]
                    R.check(ats and all(fields_of(a, mk('param', q.g.uid, 1)) <= {'detail_sample_dist'} or fields_of(a, mk('param', q.g.uid, 1)) == {'tiling'} for a in ats), R_DER, 'detail_sample_dist / none', 'no detail is sampled when %s' % showf(g)[:160])
                else:
                    seen.add('some')
                    R.check(same(x, from_poly(fmul(w('cell_size'), w('detail_sample_dist')))), R_DER, 'detail_sample_dist', 'the detail sampling distance is %s' % shown(x)[:120])
            R.check('some' in seen, R_DER, 'detail_sample_dist / any', 'detail is never sampled')
        for n, ax in (('width', 'x'), ('height', 'z')):
            if n not in got: R.fail(R_DER, n, 'the configuration has no %s' % n); continue
            for c2, x in flat_cases(q, got[n]):
                g = B.AND(c, c2); x = nf(alias(q, 1, x))
                if unsat(g): continue
                tiled = implies(g, B.var(w('tiling'))) if True else False
                if is_true(q, g, w('tiling')): R.check(same(x, from_poly(two)), R_DER, n + ' / tile', 'the %s of a tile is %s' % (n, shown(x)[:120]))
                elif is_true(q, g, w('tiling'), False): R.check(cells(x, w('aabb'), ax, w('cell_size')), R_DER, n, 'the %s of the field is %s' % (n, shown(x)[:140]))
                else: R.fail(R_DER, n, 'the %s is %s when %s' % (n, shown(x)[:100], showf(g)[:100]))
def is_true(q, g, v, yes=True):
    f = q.formula(v)
    return implies(g, f if yes else B.NOT(f))
def quotient(a, b): return nf(V.binop('div', a, b)) if False else from_poly(pmul(poly(a), inv(b)))
def inv(b): return {((b, -1),): 1}
def strip_round(x):
    x = nf(x)
    while x.op == 'call' and strip_gen(x.a[0]).split('::')[-1] in ('floor', 'trunc', 'round', 'ceil') and len(x.a[1]) == 1 or x.op in ('floor',): x = nf(x.a[1][0] if x.op == 'call' else x.a[0])
    return x
def cells(x, box, ax, cs):
    """round((max - min) / cell size) along one axis"""
    x = nf(x)
    while x.op == 'toint': x = nf(x.a[1])
    d = padd(poly(fld(fld(box, 'max'), ax)), poly(fld(fld(box, 'min'), ax)), -1)
    ext = pmul(d, inv(cs))
    if same(x, from_poly(padd(ext, {(): F_(1, 2)}))): return True
    return x.op == 'call' and strip_gen(x.a[0]).split('::')[-1] == 'round' and same(x.a[1][0], from_poly(ext))
from fractions import Fraction as F_
# ---------------------------------------------------------------------------------------------- the chain of stages
FULL = [('rasterize_triangles', ['mesh', 'walkable_climb']), ('filter_low_hanging_walkable_obstacles', ['walkable_climb']), ('filter_ledge_spans', ['walkable_height', 'walkable_climb']), ('filter_walkable_low_height_spans', ['walkable_height'])]
def name(v): return strip_gen(v.a[0]).split('::')[-1]
def unwrap(v):
    v = nf(v)
    while True:
        if v.op == 'deref': v = nf(v.a[0]); continue
        if v.op == 'fld' and v.a[1] in ('Ok.0', 'Some.0', 'Continue.0'): v = nf(v.a[0]); continue
        if v.op == 'call' and name(v) in ('context', 'with_context', 'map_err', 'branch', 'ok_or', 'ok_or_else', 'ok', 'clone', 'into') and v.a[1]: v = nf(v.a[1][0]); continue
        return v
def site_calls(q):
    """call site -> its event"""
    out = {}
    for e in q.events('call'):
        r = nf(e.a[4]) if hasattr(e.a[4], 'op') else None
        out.setdefault(site_of(e), e)
    return out
def site_of(e):
    return getattr(e, 'site', None)
def pipeline(P, R):
    f = find1(P, R, 'build_navmesh', crate='bevy_rerecast_editor')
    if not f: return
    ops = {b['path'] for b in P.all if b['crate'] == 'rerecast'} | set(find(P, 'from_mesh', 'TriMesh'))
    q = analyse(P, f, ops)
    ins = [e for e in q.events('call') if name_of(e) == 'insert_resource' and any(x.op == 'agg' and x.a[1] and x.a[1].endswith('::Navmesh') for x in [nf(e.a[3][-1])])]
    if not R.check(len(ins) == 1, R_ORD, 'result', 'the navmesh is stored at %d places' % len(ins)): return
    v = nf(ins[0].a[3][-1])
    part = dict(zip(v.a[3], v.a[4]))
    poly_ = unwrap(part.get('poly_mesh', v)); det = unwrap(part.get('detail_mesh', v))
    cfgs = set()
    def arg(x, want, stage):
        x = nf(x)
        ok = x.op == 'fld' and x.a[1] == want and nf(x.a[0]).op == 'call' and name(nf(x.a[0])) == 'build'
        if ok: cfgs.add(nf(x.a[0]))
        R.check(ok, R_ARG, '%s: %s' % (stage, want), '%s receives %s where the setting %s is meant' % (stage, shown(x)[:100], want))
    def stage(x, nm, n, where):
        ok = x.op == 'call' and name(x) == nm and len(x.a[1]) >= n
        R.check(ok, R_ORD, nm, '%s comes from %s instead of %s' % (where, shown(x)[:120], nm))
        return ok
    def before(x, nm, where):
        """x is the data as stage nm left it -> (receiver before, other arguments)"""
        x = unwrap(x)
        if not R.check(x.op == 'after' and str(x.a[2]).split('::')[-1] == nm and x.a[1] == 0, R_ORD, nm, '%s works on %s instead of what %s left' % (where, shown(x)[:120], nm)): return None
        evs = [e for e in q.events('call') if name_of(e) == nm]
        evs = [e for e in evs if same(e.a[3][0], x.a[3])]
        if not R.check(len(evs) == 1, R_ORD, nm + ' / once', '%s runs %d times' % (nm, len(evs))): return None
        return nf(x.a[3]), [nf(z) for z in evs[0].a[3][1:]]
    if not stage(det, 'new', 4, 'the detail mesh'): return
    R.check(same(unwrap(det.a[1][0]), poly_), R_ORD, 'detail / polygons', 'the detail mesh is made for another polygon mesh than the one stored')
    arg(det.a[1][2], 'detail_sample_dist', 'the detail mesh'); arg(det.a[1][3], 'detail_sample_max_error', 'the detail mesh')
    if not stage(poly_, 'into_polygon_mesh', 2, 'the polygon mesh'): return
    arg(poly_.a[1][1], 'max_vertices_per_polygon', 'the polygon mesh')
    con = unwrap(poly_.a[1][0])
    if not stage(con, 'build_contours', 4, 'the polygon mesh'): return
    for i, n in ((1, 'max_simplification_error'), (2, 'max_edge_len'), (3, 'contour_flags')): arg(con.a[1][i], n, 'the contours')
    chf = unwrap(con.a[1][0])
    R.check(same(unwrap(det.a[1][1]), chf), R_ORD, 'detail / heightfield', 'the detail mesh uses another heightfield than the contours')
    r = before(chf, 'build_regions', 'the contour stage')
    if not r: return
    for x, n in zip(r[1], ('border_size', 'min_region_area', 'merge_region_area')): arg(x, n, 'the regions')
    r = before(r[0], 'build_distance_field', 'the region stage')
    if not r: return
    x = unwrap(r[0])
    while x.op == 'after' and str(x.a[2]).split('::')[-1] == 'mark_convex_poly_area': x = unwrap(x.a[3])
    r = before(x, 'erode_walkable_area', 'the distance field')
    if not r: return
    arg(r[1][0], 'walkable_radius', 'the erosion')
    com = unwrap(r[0])
    if not stage(com, 'into_compact', 3, 'the erosion'): return
    arg(com.a[1][1], 'walkable_height', 'the compact heightfield'); arg(com.a[1][2], 'walkable_climb', 'the compact heightfield')
    hf = com.a[1][0]; mesh = None
    x = unwrap(hf)
    if x.op == 'after' and str(x.a[2]).split('::')[-1] == 'populate_from_trimesh':
        r = before(x, 'populate_from_trimesh', 'the compact heightfield')
        if not r: return
        arg(r[1][1], 'walkable_height', 'the rasterisation'); arg(r[1][2], 'walkable_climb', 'the rasterisation')
        hf, mesh = r[0], r[1][0]
    else:
        for nm, args in reversed(FULL):
            r = before(hf, nm, 'the stage after ' + nm)
            if not r: return
            for z, n in zip(r[1], args):
                if n == 'mesh': mesh = z
                else: arg(z, n, nm)
            hf = r[0]
    hb = unwrap(hf)
    if not (stage(hb, 'build', 1, 'the heightfield') and nf(hb.a[1][0]).op == 'agg'): 
        if hb.op == 'call': R.fail(R_ORD, 'heightfield', 'the heightfield is made from %s' % shown(nf(hb.a[1][0]))[:100])
        return
    b = nf(hb.a[1][0]); hs = dict(zip(b.a[3], b.a[4]))
    arg(hs.get('cell_size', b), 'cell_size', 'the heightfield'); arg(hs.get('cell_height', b), 'cell_height', 'the heightfield')
    box = unwrap(hs.get('aabb', b))
    r = before(unwrap(mesh), 'mark_walkable_triangles', 'the rasterisation')
    if not r: return
    arg(r[1][0], 'walkable_slope_angle', 'the slope marking')
    R.check(box.op == 'call' and name(box) == 'compute_aabb' and any(same(unwrap(box.a[1][0]), y) for y in (unwrap(r[0]), unwrap(mesh))), R_ORD, 'bounds', 'the heightfield covers %s and not the bounds of the geometry rasterised' % shown(box)[:100])
    R.check(len(cfgs) == 1, R_ARG, 'one configuration', 'the settings come from %d configurations' % len(cfgs))
    for c in cfgs:
        src = nf(c.a[1][0]) if c.a[1] else c
        root = src
        while root.op in ('fld', 'deref'): root = nf(root.a[0])
        R.check(root.op == 'param', R_ARG, 'configuration', 'the configuration is made from %s' % shown(src)[:100])
    # no stage beside the chain
    for nm in ('rasterize_triangles', 'rasterize_triangle', 'filter_low_hanging_walkable_obstacles', 'filter_ledge_spans', 'filter_walkable_low_height_spans', 'into_compact', 'erode_walkable_area', 'build_distance_field', 'build_regions', 'mark_walkable_triangles', 'populate_from_trimesh'):
        n = [e for e in q.events('call') if name_of(e) == nm and not unsat(q.facts(e.blk))]
        R.check(len(n) <= 1, R_ORD, nm + ' / once', '%s runs at %d places' % (nm, len(n)))
        for e in n: R.check(q.loop(e.blk) is None, R_ORD, nm + ' / loop', '%s runs in a loop' % nm)
    populate(P, R)
def name_of(e): return strip_gen(e.a[0]).split('::')[-1]
def populate(P, R):
    """the combined entry runs the same chain"""
    c = find(P, 'populate_from_trimesh', 'Heightfield')
    if not c: return
    ops = {b['path'] for b in P.all if b['crate'] == 'rerecast' and b.get('name') in ('rasterize_triangle', 'rasterize_triangles') or b.get('name', '') and str(b.get('name')).startswith('filter_')}
    q = analyse(P, c[0], ops)
    hgt, climb = p_(q, 3), p_(q, 4)
    want = {'rasterize_triangle': [None, None, climb], 'rasterize_triangles': [None, climb], 'filter_low_hanging_walkable_obstacles': [climb], 'filter_ledge_spans': [hgt, climb], 'filter_walkable_low_height_spans': [hgt]}
    for e in q.events('call'):
        nm = name_of(e)
        if nm in want:
            for i, w in enumerate(want[nm]):
                if w is not None: R.check(same(e.a[3][i + 1], w), R_ARG, 'populate_from_trimesh: %s #%d' % (nm, i), '%s receives %s' % (nm, shown(nf(e.a[3][i + 1]))[:80]))
    fs = [(e, name_of(e)) for e in q.events('call') if name_of(e).startswith('filter_')]
    order = ['filter_low_hanging_walkable_obstacles', 'filter_ledge_spans', 'filter_walkable_low_height_spans']
    R.check(sorted(n for _, n in fs) == sorted(order), R_ORD, 'populate_from_trimesh', 'the filters run are %s' % [n for _, n in fs])
    cur = None
    at = {n: e for e, n in fs}
    for a, b in zip(order, order[1:]):
        if a in at and b in at:
            x = nf(at[b].a[3][0])
            R.check(x.op == 'after' and str(x.a[2]).split('::')[-1] == a or any(y.op == 'after' and str(y.a[2]).split('::')[-1] == a for y in walk_nodes(x)), R_ORD, 'populate_from_trimesh: %s before %s' % (a, b), '%s does not work on what %s left' % (b, a))
    if 'filter_low_hanging_walkable_obstacles' in at:
        e = at['filter_low_hanging_walkable_obstacles']
        R.check(q.loop(e.blk) is None and any(x.op in ('phi', 'after') for x in walk_nodes(nf(e.a[3][0]))), R_ORD, 'populate_from_trimesh: rasterise first', 'the filters run on %s' % shown(nf(e.a[3][0]))[:80])
def metadata(P, R):
    def agg(fn, ty=None, wrap=None):
        f = find1(P, R, fn, ty, 'rerecast')
        if not f: return
        q = analyse(P, f)
        rs = []
        for c, v, e in results(q):
            v = nf(v)
            if v.op == 'agg' and v.a[2] == 'Err': continue
            if v.op == 'agg' and v.a[2] == 'Ok': v = nf(v.a[4][0])
            rs.append((c, v))
        R.check(rs, R_META, fn, '%s returns nothing' % fn)
        return q, rs
    def isparam(q, i, n, v):
        v = nf(v)
        return v.op == 'fld' and v.a[1] == n and nf(alias(q, i, v)) is fld(mk('param', q.g.uid, i), n) or same(v, fld(mk('param', q.g.uid, i), n)) or same(v, fld(mk('deref', mk('param', q.g.uid, i)), n))
    def box(q, i, c, v, label, change):
        """every bound of v is the one of parameter i, changed as stated"""
        for s in ('min', 'max'):
            for ax in 'xyz':
                for c2, x in flat_cases(q, nf(fld(fld(v, s), ax))):
                    g = B.AND(c, c2)
                    if unsat(g): continue
                    me = mk('deref', mk('param', q.g.uid, i)) if any(y.op == 'deref' and y.a[0] is mk('param', q.g.uid, i) for y in walk_nodes(x)) else mk('param', q.g.uid, i)
                    old = fld(fld(fld(me, 'aabb'), s), ax)
                    forms = change(me, s, ax, old)
                    R.check(any(same(x, z) and (h is None or implies(g, q.formula(h))) for z, h in forms), R_META, '%s: aabb.%s.%s' % (label, s, ax), '%s: the bound %s.%s becomes %s' % (label, s, ax, shown(x)[:120]))
    a = agg('build', 'HeightfieldBuilder')
    if a:
        q, rs = a
        for c, v in rs:
            me = mk('param', q.g.uid, 1)
            for n in ('cell_size', 'cell_height'): R.check(isparam(q, 1, n, fld(v, n)), R_META, 'heightfield: ' + n, 'the heightfield has the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            box(q, 1, c, fld(v, 'aabb'), 'heightfield', lambda me, s, ax, old: [(old, None)])
            for n, ax in (('width', 'x'), ('height', 'z')): R.check(cells(alias(q, 1, nf(fld(v, n))), fld(me, 'aabb'), ax, fld(me, 'cell_size')), R_META, 'heightfield: ' + n, 'the heightfield has the %s %s' % (n, shown(nf(fld(v, n)))[:140]))
    a = agg('into_compact')
    if a:
        q, rs = a
        for c, v in rs:
            for n in ('cell_size', 'cell_height', 'width', 'height'): R.check(isparam(q, 1, n, fld(v, n)), R_META, 'compact: ' + n, 'the compact heightfield has the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            for n, i in (('walkable_height', 2), ('walkable_climb', 3)): R.check(same(fld(v, n), mk('param', q.g.uid, i)), R_META, 'compact: ' + n, 'the compact heightfield has the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            h = mk('param', q.g.uid, 2)
            box(q, 1, c, fld(v, 'aabb'), 'compact', lambda me, s, ax, old: [(from_poly(padd(poly(old), fmul(h, fld(me, 'cell_height')))), None)] if (s, ax) == ('max', 'y') else [(old, None)])
    f = find1(P, R, 'build_regions', None, 'rerecast')
    if f:
        q = analyse(P, f); st = [e for e in q.events('store') if e.a[0][-1] == 'border_size']
        R.check(st, R_META, 'regions: border_size', 'the border the regions leave is not recorded')
        for e in st: R.check(same(e.a[2], mk('param', q.g.uid, 2)) and q.loop(e.blk) is None, R_META, 'regions: border_size', 'the border recorded is %s' % shown(nf(e.a[2]))[:80])
        for c, v, e in results(q):
            if v.op == 'agg' and v.a[2] == 'Ok' or v.op != 'agg': R.check(any(q.dominates(s.blk, e.blk) or implies(c, q.facts(s.blk)) for s in st), R_META, 'regions: border_size / always', 'the border is not always recorded')
    a = agg('build_contours')
    if a:
        q, rs = a
        for c, v in rs:
            for n in ('cell_size', 'cell_height', 'border_size'): R.check(isparam(q, 1, n, fld(v, n)), R_META, 'contours: ' + n, 'the contours have the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            R.check(same(fld(v, 'max_error'), mk('param', q.g.uid, 2)), R_META, 'contours: max_error', 'the contours have the max_error %s' % shown(nf(fld(v, 'max_error')))[:80])
            for n in ('width', 'height'):
                ok = False
                for me in (mk('deref', mk('param', q.g.uid, 1)), mk('param', q.g.uid, 1)):
                    w = padd(poly(fld(me, n)), {m: 2 * k for m, k in poly(fld(me, 'border_size')).items()}, -1)
                    ok = ok or same(fld(v, n), from_poly(w)) or sat_sub(fld(v, n), fld(me, n), fld(me, 'border_size'))
                R.check(ok, R_META, 'contours: ' + n, 'the contours have the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            def padded(me, s, ax, old):
                if ax == 'y': return [(old, None)]
                b = fld(me, 'border_size')
                return [(from_poly(padd(poly(old), fmul(b, fld(me, 'cell_size')), 1 if s == 'min' else -1)), None), (old, V.eq(b, const(0)))]
            box(q, 1, c, fld(v, 'aabb'), 'contours', padded)
    a = agg('into_polygon_mesh')
    if a:
        q, rs = a
        for c, v in rs:
            for n, s in (('cell_size', 'cell_size'), ('cell_height', 'cell_height'), ('border_size', 'border_size'), ('max_edge_error', 'max_error')): R.check(isparam(q, 1, s, fld(v, n)), R_META, 'polygons: ' + n, 'the polygon mesh has the %s %s' % (n, shown(nf(fld(v, n)))[:80]))
            R.check(same(fld(v, 'max_vertices_per_polygon'), mk('param', q.g.uid, 2)), R_META, 'polygons: max_vertices_per_polygon', 'the polygon mesh has the limit %s' % shown(nf(fld(v, 'max_vertices_per_polygon')))[:80])
            box(q, 1, c, fld(v, 'aabb'), 'polygons', lambda me, s, ax, old: [(old, None)])
def sat_sub(v, w, b):
    v = nf(v)
    return v.op == 'call' and strip_gen(v.a[0]).split('::')[-1] == 'saturating_sub' and same(v.a[1][0], w)
