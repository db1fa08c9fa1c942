from conv import *
from seqs import *
EXPLAIN = ('Every list that receives geometry is described as a sequence of appends (position = length at the start of the pass + number of the pass) on the value graph of the inlined MIR; the position an index is meant for is then '
           'compared with the position its vertex was put at, and every append must run over the whole source, in order and on every way to a return.')
R_ALL = 'everything of the other mesh is appended once and in order'
R_SHIFT = "appended indices are shifted by the number of vertices there were before"
R_SUB = 'a submesh records where its vertices and triangles begin and how many there are'
R_SUBEL = 'the elements of a submesh are appended in order'
R_PRE = "preview triangles use their own polygon's vertices"
T = mk('sym', 't')
def run(P, R):
    merge(P, R)
    detail(P, R)
    for name, f in (('draw_poly_mesh', poly_preview), ('draw_detail_mesh', detail_preview)):
        p = find1(P, R, name, crate='bevy_rerecast_editor')
        if p: preview(P, R, p, name, f)
def whole(R, q, p, count, rule, inst, within=None, alike=()):
    """the appends of p cover a source of that length, in order and on every way"""
    if p.h is None or p.h == within: R.fail(rule, inst, 'the elements are not appended one by one in a loop'); return False
    def other_list(b, s, c):        # lists of equal length may be walked side by side
        return any(implies(c, B.NOT(q.formula(mk('lt', z, l)))) for z in q.header_phis(p.h) for l in alike if (q.induction(z) or (0, 0))[1] == 1 and num(q.induction(z)[0]) == 0)
    x, a, b, why = passes(q, p.h, other_list)
    ok = R.check(x is not None, rule, inst + ' / all', 'the loop appending them does not run over all of them: %s' % why)
    if x is None: return False
    n = from_poly(padd(poly(b), poly(a), -1))
    if count is not None: ok &= R.check(same(n, count) or any(same(n, l) for l in alike), rule, inst + ' / count', '%s elements are appended instead of %s' % (shown(n)[:80], shown(count)[:80]))
    ok &= R.check(p.stride == 1 and p.off == 0 and every_pass(q, p.blk, p.h), rule, inst + ' / each', 'not exactly one element is appended in every pass')
    if within is None: ok &= R.check(always(q, p.h), rule, inst + ' / always', 'the elements are not appended on every way to the end')
    else: ok &= R.check(every_pass(q, p.h, within), rule, inst + ' / always', 'the elements are not appended in every pass')
    return ok
# ---------------------------------------------------------------- TriMesh::extend
def merge(P, R):
    f = find1(P, R, 'extend', 'TriMesh')
    if not f: return
    q = analyse(P, f); uncut(R, q, R_SHIFT)
    me, other = mk('param', q.g.uid, 1), mk('param', q.g.uid, 2)
    old = mk('deref', me); 
    adt = next((a for p, a in P.adts.items() if p.split('::')[-1] == 'TriMesh' and p.startswith('rerecast::')), None)
    if adt is None: R.fail('anchor', 'TriMesh', 'the type TriMesh no longer exists'); return
    names = [x[0] if not isinstance(x, dict) else x['name'] for x in fields_of_adt(adt)]
    for n in ('vertices', 'indices', 'area_types'):
        if n not in names: R.fail('anchor', 'TriMesh.' + n, 'TriMesh has no field %s' % n); return
    ps, oth = pushes(q)
    mine = lambda k: isinstance(k[0], tuple) and k[0][0] == 'O' and k[0][1] is me
    for n in names:
        l = [p for p in ps if mine(p.key) and p.key[1] == n]
        for e in oth:
            if mine(e.a[0]) and e.a[0][1] == n: R.fail(R_ALL, n + ' / changed', '%s is changed other than by appending' % n)
        if len(l) != 1: R.fail(R_ALL, n, '%d statements append to %s' % (len(l), n)); continue
        p = l[0]; src = fld(other, n)
        alike = [fld(fld(other, z), '#len') for z in ('indices', 'area_types')] if n != 'vertices' else ()
        if not whole(R, q, p, fld(src, '#len'), R_ALL, n, alike=alike): continue
        R.check(same(p.init, fld(fld(old, n), '#len')) , R_ALL, n + ' / at the end', 'the elements are put at %s' % shown(p.init)[:80])
        v = nf(p.at(T)); el = V.elem(src, T) if hasattr(V, 'elem') else mk('elem', src, T)
        if n != 'indices': R.check(same(v, el), R_ALL, n + ' / value', 'element t becomes %s' % shown(v)[:120])
        else:
            sh = fld(fld(old, 'vertices'), '#len')
            for c in 'xyz':
                w = nf(fld(v, c)); want = from_poly(padd(poly(fld(el, c)), poly(sh)))
                R.check(same(w, want), R_SHIFT, 'TriMesh::extend ' + c, 'corner %s of an appended triangle becomes %s instead of %s' % (c, shown(w)[:120], shown(want)[:80]))
def fields_of_adt(a):
    v = a.get('variants')
    if v: return v[0]['fields'] if isinstance(v[0], dict) else v[0][1]
    return a['fields']
# ---------------------------------------------------------------- DetailNavmesh::new
SUBF = (('base_vertex_index', 'vertex_count', 'vertices'), ('base_triangle_index', 'triangle_count', 'triangles'))
def detail(P, R):
    f = find1(P, R, 'new', 'DetailNavmesh')
    if not f: return
    q = analyse(P, f, {x for n in ('build_poly_detail', 'get_height_data') for x in find(P, n)})
    uncut(R, q, R_SUB)
    ps, oth = pushes(q)
    subs = submeshes(q)
    if not subs: R.fail('anchor', 'submesh', 'no submesh is written'); return
    for base, cnt, lst in SUBF:
        l = [p for p in ps if p.key[-1] == lst and len(p.key) == 2]
        o = [e for e in oth if len(e.a[0]) == 3 and e.a[0][1] == lst and q.loop(e.blk) is not None]
        R.check(not o, R_SUBEL, lst + ' / changed', 'the list of %s is changed other than by appending' % lst)
        if len(l) != 1: R.fail(R_SUBEL, lst, '%d statements append to the list of %s' % (len(l), lst)); continue
        p = l[0]
        for s in subs:
            H = q.loop(s['blk'])
            if H is None or p.h is None or H not in q.chain(p.h): R.fail(R_SUB, lst, 'a submesh and its %s are not written in the same pass' % lst); continue
            b, c = s.get(base), s.get(cnt)
            if b is None or c is None: R.fail(R_SUB, lst, 'a submesh does not record %s or %s' % (base, cnt)); continue
            x, lo, hi, why = passes(q, p.h)
            if not whole(R, q, p, nf(c), R_SUB, lst, H): continue
            R.check(same(nf(b), p.init), R_SUB, base, '%s is %s although the first one is put at %s' % (base, shown(nf(b))[:80], shown(p.init)[:80]))
            R.check(all(y.a[0] == H for y in walk_nodes(p.init) if y.op == 'phi' and y.a[2] == q.g.uid and y.a[0] in q.loops), R_SUB, base + ' / pass', '%s does not stem from the start of the pass' % base)
            R.check(every_pass(q, s['blk'], H) or s.get('?') is not None, R_SUB, base + ' / always', 'some passes append %s without recording them' % lst)
        v = nf(p.at(T)) if p.stride == 1 else None
        ix = {y for y in elems_idx(v)} if v is not None else {None}
        R.check(ix == {T}, R_SUBEL, lst + ' / order', 'element t of a submesh is %s' % (shown(v)[:120] if v is not None else '?'))
        if lst == 'triangles' and v is not None and v.op in ('arr', 'agg'):
            w = [nf(y) for y in (v.a[4] if v.op == 'agg' else v.a)]
            R.check(len(w) == 3 and all(y.op == 'elem' and num(y.a[1]) == k for k, y in enumerate(w)) and len({y.a[0] for y in w if y.op == 'elem'}) == 1, R_SUBEL, 'corners', 'the corners of a triangle become %s' % [shown(y)[:50] for y in w])
def elems_idx(v):
    """positions of the elements a value takes from somewhere"""
    def has(a): return a is T or isinstance(a, tuple) and any(has(z) for z in a)
    return {y if y.op == 'poly' else T for y in walk_nodes(v) if y is not T and has(y.a)}
def submeshes(q):
    by = {}
    for e in q.events('store'):
        k = e.a[0]
        if not isinstance(k, tuple) or 'meshes' not in k or '[]' not in k: continue
        i = nf(e.a[1][-1]) if e.a[1] else None
        if k[-1] == '[]':
            v = nf(e.a[2])
            if v.op == 'agg' and v.a[3] and 'base_vertex_index' in v.a[3] and q.loop(e.blk) is not None:
                d = by.setdefault((e.blk, i), {'blk': e.blk}); d.update(zip(v.a[3], v.a[4]))
        else: by.setdefault((q.loop(e.blk), i), {'blk': e.blk})[k[-1]] = e.a[2]
    return list(by.values())
# ---------------------------------------------------------------- previews
def lists(q, R, name):
    """the vertex and the index list put into a mesh"""
    V_, I_ = [], []
    for e in q.events('call'):
        n = strip_gen(e.a[0]).split('::')[-1]
        if n in ('insert_attribute', 'with_inserted_attribute'): V_.append((e, nf(e.a[2][2])))
        if n in ('insert_indices', 'with_inserted_indices'):
            v = nf(e.a[2][1])
            if v.op == 'agg' and len(v.a[4]) == 1: v = nf(v.a[4][0])
            I_.append((e, v))
    return V_, I_
def key_of(v):
    s = {x.a[1][:-1] for x in walk_nodes(v) if x.op == 'phi' and x.a[1][-1] == '#len'}
    return s.pop() if len(s) == 1 else None
def resolve(q, vs, i, blk):
    """vertex that ends up at position i, seen from blk"""
    i = nf(i)
    for p in vs:
        if same(p.idx, i) and (p.h is None or p.h in q.chain(blk)) and (p.blk == blk or q.dominates(p.blk, blk) or q.dominates(blk, p.blk)): return p.val, None
    for p in vs:
        if p.stride != 1 or p.off or p.init is None: continue
        ls = [y for y in walk_nodes(p.init) if y.op == 'phi' and y.a[0] in q.loops]
        t = from_poly(padd(poly(i), poly(p.init), -1))
        if any(y.op == 'phi' and y.a[1][-1] == '#len' and y.a[0] in q.loops for y in walk_nodes(t) if y.op == 'phi' and y.a[1][:-1] == p.key): continue
        H = q.chain(p.h)[1] if len(q.chain(p.h)) > 1 else None
        if H is not None and H not in q.chain(blk): continue
        if any(y.a[0] != H for y in ls): continue
        if H is not None and not every_pass(q, p.h, H): continue
        x, a, b, why = passes(q, p.h)
        if x is None: continue
        return nf(p.at(t)), from_poly(padd(poly(b), poly(a), -1))
    return None, None
class One:
    def __init__(s, val, blk): s.val = val; s.blk = blk
def spelled_out(q, p):
    """an append of the elements of a literal array, one by one"""
    v = nf(p.val)
    if v.op == 'elem' and v.a[0].op == 'arr' and v.a[1].op == 'phi' and v.a[1].a[0] == p.h and p.stride == 1 and every_pass(q, p.blk, p.h):
        x, a, b, why = passes(q, p.h)
        if x is not None and num(a) == 0 and num(b) == len(v.a[0].a): return [One(y, p.h) for y in v.a[0].a]
    return [p]
def preview(P, R, path, name, expect):
    q = analyse(P, path); uncut(R, q, R_PRE)
    V_, I_ = lists(q, R, name)
    if len(V_) != 1 or len(I_) != 1: R.fail('anchor', name, '%d vertex lists and %d index lists are put into the preview' % (len(V_), len(I_))); return
    kv, ki = key_of(V_[0][1]), key_of(I_[0][1])
    if kv is None or ki is None: R.fail('anchor', name, 'the vertices or indices of the preview are not a list built here'); return
    vs, ov = pushes(q, kv); is_, oi = pushes(q, ki)
    R.check(vs and is_ and not ov and not oi, R_PRE, name + ' / appended', 'the lists of the preview are changed other than by appending')
    is_ = [z for p in is_ for z in spelled_out(q, p)]
    for p in is_:
        v, n = resolve(q, vs, p.val, p.blk)
        if v is None: R.fail(R_PRE, name, 'the index %s is not the position of a vertex appended for the same polygon' % shown(nf(p.val))[:120]); continue
        expect(R, q, p, nf(v), name)
    if expect is poly_preview: corners(R, q, is_, vs, name)
def unfloat(v): return v
def sources(v, field):
    return {x for x in walk_nodes(v) if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == field}
def poly_corner(v):
    """(polygon mesh, index into its polygons) of a vertex in world coordinates, or why it is none"""
    if v.op != 'agg' or not {'x', 'y', 'z'} <= set(v.a[3] or ()): return None, None, 'it is %s' % shown(v)[:100]
    vs = sources(v, 'vertices')
    if len(vs) != 1: return None, None, 'it is made from %d vertices' % len(vs)
    el = vs.pop(); pm = el.a[0].a[0]
    for c in 'xyz':
        cell = fld(pm, 'cell_height' if c == 'y' else 'cell_size')
        want = from_poly(padd(poly(fld(fld(fld(pm, 'aabb'), 'min'), c)), pmul(poly(cell), poly(fld(el, c)))))
        if not same(nf(fld(v, c)), want): return None, None, 'its %s is %s' % (c, shown(nf(fld(v, c)))[:120])
    j = nf(el.a[1])
    if j.op != 'elem' or not same(j.a[0], fld(pm, 'polygons')): return None, None, 'its vertex is number %s' % shown(j)[:100]
    return pm, nf(j.a[1]), None
def poly_preview(R, q, p, v, name):
    pm, j, why = poly_corner(v)
    if not R.check(why is None, R_PRE, name + ' / vertex', 'a triangle of the preview uses a vertex that is no corner of the polygon mesh: %s' % why): return
    own = False
    for h in q.chain(p.blk):
        for x in q.header_phis(h):
            i = q.induction(x)
            if i is None or i[1] != 1: continue
            off = padd(poly(j), pmul(poly(x), poly(fld(pm, 'max_vertices_per_polygon'))), -1)
            off = {k: w for k, w in off.items() if w}
            if any(y is x for m in off for y, _ in m): continue
            r = q.facts(p.blk); o = from_poly(off); nvp = fld(pm, 'max_vertices_per_polygon')
            lo = all(w >= 0 for w in off.values())
            if lo and implies(r, q.formula(mk('lt', o, nvp))) or not off: own = True
            elif lo and any(implies(q.facts(b), q.formula(mk('lt', o, nvp))) for b in q.loops[q.loop(p.blk)]): own = True
    R.check(own, R_PRE, name + ' / own', 'a triangle of the preview uses corner %s, which is not shown to belong to the polygon at hand' % shown(j)[:120])
def corners(R, q, is_, vs, name):
    """three corners of one polygon, all different"""
    by = {}
    for p in is_: by.setdefault(p.blk, []).append(p)
    for b, l in by.items():
        if not R.check(len(l) % 3 == 0, R_PRE, name + ' / triangles', '%d indices are appended at once' % len(l)): continue
        for k in range(0, len(l), 3):
            js = []
            for p in l[k:k + 3]:
                v, n = resolve(q, vs, p.val, p.blk)
                if v is not None: js.append(poly_corner(nf(v))[1])
            R.check(len(js) == 3 and None not in js and len({nf(j) for j in js}) == 3, R_PRE, name + ' / corners', 'a triangle does not have three different corners')
def detail_preview(R, q, p, v, name):
    el = v
    if not R.check(el.op == 'elem' and el.a[0].op == 'fld' and el.a[0].a[1] == 'vertices', R_PRE, name + ' / vertex', 'a triangle of the preview uses %s' % shown(v)[:120]): return
    dm = el.a[0].a[0]; pl = poly(nf(el.a[1]))
    ats = [m[0][0] for m, w in pl.items() if len(m) == 1 and w == 1]
    base = [x for x in ats if x.op == 'fld' and x.a[1] == 'base_vertex_index']
    tri = [x for x in ats if x.op == 'elem']
    if not R.check(len(pl) == 2 and len(base) == 1 and len(tri) == 1, R_PRE, name + ' / own', 'the vertex used is number %s' % shown(el.a[1])[:140]): return
    sub = base[0].a[0]; k = tri[0]; t = k.a[0]
    ok = t.op == 'elem' and same(t.a[0], fld(dm, 'triangles'))
    if ok:
        tp = padd(poly(nf(t.a[1])), poly(fld(sub, 'base_triangle_index')), -1); tp = {m: w for m, w in tp.items() if w}
        ok = not any(y.op == 'fld' and y.a[1] == 'base_triangle_index' for y in walk_nodes(from_poly(tp)))
        x = from_poly(tp)
        ok = ok and x.op == 'phi' and x.a[0] in q.loops
        if ok:
            z, a, b, why = passes(q, x.a[0])
            R.check(z is not None and num(a) == 0 and same(b, fld(sub, 'triangle_count')), R_PRE, name + ' / all triangles', 'the triangles of a submesh run up to %s' % (shown(b)[:80] if z is not None else why))
    R.check(ok, R_PRE, name + ' / triangle', 'the triangle used is number %s' % (shown(t.a[1])[:120] if t.op == 'elem' else shown(t)[:80]))
    c = nf(k.a[1])
    if num(c) is None:
        z, a, b, why = passes(q, c.a[0]) if c.op == 'phi' and c.a[0] in q.loops else (None,) * 3 + ('it is %s' % shown(c)[:60],)
        R.check(z is not None and num(a) == 0 and (num(b) == 3 or '#len' in shown(b)), R_PRE, name + ' / corners', 'the corners of a triangle are not taken in turn: %s' % why)
    s = sub
    R.check(s.op == 'elem' and s.a[0].op == 'fld' and s.a[0].a[0] is dm, R_PRE, name + ' / submesh', 'the submesh used is %s' % shown(s)[:80])
