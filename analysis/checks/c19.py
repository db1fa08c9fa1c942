from conv import *
from seqs import *
from checks.c18 import whole_vector, strip_proj, root_of
EXPLAIN = ('The conversion is described on the value graph of the inlined MIR as the list of its elements and the exact condition under which it yields anything; the backend and the gathering loop of the editor are evaluated as streams '
           'of query items, and what is appended is compared with the item it stems from.')
R_CONV = 'a mesh becomes exactly its own geometry'
R_AREA = 'one unwalkable area type per triangle'
R_COND = 'every indexed triangle list with positions is converted, and nothing else'
R_BACK = 'one entry per convertible mesh entity'
R_OWN = 'an entry has the transform and the mesh of its own entity'
R_ONCE = "the editor applies an entity's own transform to every vertex once"
R_ALL = 'the editor gathers every convertible affector'
OPT = 'core::option::Option'
def is_some(q, v): return q.formula(V.eq(V.discr(v, OPT), const(FL.discr_of(OPT, 'Some'))))
def run(P, R):
    convert(P, R); backend(P, R); editor(P, R)
def convert(P, R):
    f = find1(P, R, 'from_mesh', 'TriMesh', crate='bevy_rerecast_core')
    if not f: return
    q = analyse(P, f)
    m = mk('deref', mk('param', q.g.uid, 1))
    uncut(R, q, R_CONV)
    rs = results(q)
    keep = False; vals = []
    for c, v, e in rs:
        if v.op == 'agg' and v.a[2] == 'None': continue
        if not R.check(v.op == 'agg' and v.a[2] == 'Some', R_CONV, 'result', 'a mesh becomes %s' % shown(v)[:120]): return
        keep = c if keep is False else B.OR(keep, c); vals.append((c, nf(v.a[4][0])))
    if not R.check(vals, R_CONV, 'result', 'no mesh is converted'): return
    attr = src = None; isrc = None; lens = set()
    for c, v in vals:
        ls = {}
        for n in ('vertices', 'indices', 'area_types'):
            l = [z for z in listed(q, fld(v, n), c) if not unsat(z[0])]
            bad = [z[3] or 'empty' for z in l if z[3] or z[2] is None]
            if not R.check(l and not bad, R_CONV, n + ' / list', 'the %s are not understood: %s' % (n, bad)): return
            ls[n] = l
        for cd, n, el, _ in ls['vertices']:
            el = whole_vector(bare(el))
            ok = el.op == 'elem' and el.a[1] is T_
            s = strip_proj(el.a[0]) if ok else el
            a = None
            if ok and s.op == 'fld' and s.a[1] == 'Some.0' and call_is(nf(s.a[0]), 'as_float3'): a = nf(s.a[0]).a[1][0]; f3 = is_some(q, nf(s.a[0]))
            elif ok and s.op == 'fld' and s.a[1].endswith('Float32x3.0'): a = s.a[0]; f3 = variant(q, a, 'bevy_mesh::vertex::VertexAttributeValues', 'Float32x3')
            if a is not None:
                a = strip_proj(a); a = a.a[0] if a.op == 'fld' and a.a[1] == 'Some.0' else a
            ok = a is not None and call_is(nf(a), 'attribute') and same(nf(a.a[1][0]), m) and any(y.op == 'agg' and (y.a[1] or '').endswith('MeshVertexAttributeId') and num(y.a[4][0]) == 0 for y in walk_nodes(a.a[1][1]))
            if not R.check(ok, R_CONV, 'vertices', 'vertex t becomes %s' % shown(el)[:140]): return
            attr = a; src = f3
            R.check(same(n, fld(el.a[0], '#len')), R_CONV, 'vertices / count', '%s vertices are produced' % shown(n)[:80])
        for cd, n, el, _ in ls['indices']:
            ys = [nf(y) for y in el.a[4]] if el.op == 'agg' and len(el.a[4]) == 3 else []
            base = {y.a[0] for y in ys if y.op == 'elem'}
            pos = [from_poly(padd(poly(y.a[1]), {k: -3 * w for k, w in patom(T_).items()})) for y in ys if y.op == 'elem']
            ok = len(base) == 1 and [num(p) for p in pos] == [0, 1, 2]
            if not R.check(ok, R_CONV, 'indices', 'triangle t becomes %s' % shown(el)[:160]): return
            b = nf(base.pop()); i = b
            if call_is(i, 'collect') and call_is(nf(i.a[1][0]), 'iter'): i = nf(nf(i.a[1][0]).a[1][0])
            i = strip_proj(i)
            if i.op == 'fld' and i.a[1] in ('U16.0', 'U32.0'): i = strip_proj(i.a[0])
            o = nf(i.a[0]) if i.op == 'fld' and i.a[1] == 'Some.0' else i
            if not R.check(call_is(o, 'indices') and same(nf(o.a[1][0]), m), R_CONV, 'indices / own', 'the indices used are %s' % shown(b)[:120]): return
            isrc = o; L = fld(b, '#len'); lens.add(nf(L))
            good = n.op == 'call' and n.a[0] == 'groups of' and num(n.a[1][1]) == 3 and any(same(n.a[1][0], from_poly(padd(poly(L), pconst(-k)))) for k in (0, 2)) or same(n, mk('div', L, const(3)))
            R.check(good, R_CONV, 'indices / count', 'as many triangles are produced as %s' % shown(n)[:80])
        for cd, n, el, _ in ls['area_types']:
            R.check(same(n, fld(fld(v, 'indices'), '#len')) or any(same(n, z[1]) for z in ls['indices']), R_AREA, 'count', 'there are %s area types' % shown(n)[:80])
            z = num(fld(el, '0')) if el.op == 'agg' else num(el)
            R.check(z == 0, R_AREA, 'value', 'the area type of a triangle is %s' % shown(el)[:60])
    if attr is None or isrc is None: return
    tl = [y for y in top_calls(keep, 'primitive_topology') if same(nf(y.a[1][0]), m)]
    if not R.check(len(tl) == 1, R_COND, 'topology', 'the topology of the mesh is not looked at'): return
    want = variant(q, tl[0], 'wgpu_types::PrimitiveTopology', 'TriangleList')
    for x in (is_some(q, attr), src, is_some(q, isrc)): want = B.AND(want, x)
    mult = False
    for l in lens:
        w = q.formula(V.eq(V.binop('rem', l, const(3)), const(0)))
        mult = w if mult is False else B.OR(mult, w)
    R.check(equiv(keep, B.AND(want, mult)), R_COND, 'condition', 'a mesh is converted when %s' % showf(keep)[:300])
def top_calls(c, name):
    return calls_in(c, name)
def pair(R, q, s, rule, c, v, transform, mesh, meshes):
    pass
def own_mesh(t, item, k, store):
    """t is from_mesh of the mesh the k-th part of the item refers to -> (the lookup, problem)"""
    t = nf(t)
    if t.op == 'fld' and t.a[1] == 'Some.0': t = nf(t.a[0])
    if not call_is(t, 'from_mesh'): return None, None, shown(t)[:100]
    g = strip_proj(t.a[1][0]); g = nf(g.a[0]) if g.op == 'fld' and g.a[1] == 'Some.0' else g
    if not (call_is(g, 'get') and len(g.a[1]) == 2): return None, None, shown(g)[:100]
    st = strip_proj(g.a[1][0])
    if not same(st, store): return None, None, 'a mesh looked up in %s' % shown(st)[:60]
    i = bare(g.a[1][1])
    while not same(i, fld(item, k)):
        if i.op == 'deref' or i.op == 'fld' and i.a[1] in ('0', '*'): i = bare(i.a[0])
        elif i.op == 'call' and len(i.a[1]) == 1 and strip_gen(i.a[0]).split('::')[-1] in ('id', 'as_asset_id', 'deref'): i = bare(i.a[1][0])
        else: return None, None, 'the mesh %s' % shown(g.a[1][1])[:100]
    return t, g, None
def backend(P, R):
    f = find1(P, R, 'mesh3d_backend', crate='bevy_rerecast_core')
    if not f: return
    ops = set(find(P, 'from_mesh', 'TriMesh'))
    q = analyse(P, f, ops); n = 0
    p1, p2 = mk('param', q.g.uid, 1), mk('param', q.g.uid, 2)
    for e in q.events('ret'):
        s = stream(P, q, e.a[0], ops)
        if s is None: R.fail(R_BACK, 'backend', 'how the meshes are gathered is not understood: %s' % shown(nf(e.a[0]))[:120]); continue
        while call_is(s.src, 'iter', 'into_iter') and len(s.src.a[1]) == 1: s.src = nf(s.src.a[1][0])
        R.check(same(s.src, p2), R_BACK, 'source', 'what is gathered stems from %s' % shown(s.src)[:80])
        for c, v in s.out:
            n += 1; v = nf(v)
            if not R.check(v.op == 'agg' and len(v.a[4]) == 2, R_OWN, 'entry', 'an entry is %s' % shown(v)[:100]): continue
            R.check(same(bare(v.a[4][0]), mk('deref', fld(s.it, '0'))), R_OWN, 'transform', 'an entry has the transform %s' % shown(v.a[4][0])[:100])
            t, g, why = own_mesh(v.a[4][1], s.it, '1', p1)
            if not R.check(t is not None, R_OWN, 'geometry', 'an entry has the geometry of %s' % why): continue
            R.check(equiv(c, B.AND(is_some(q, g), is_some(q, t))), R_BACK, 'condition', 'an entity gets an entry when %s' % showf(c)[:200])
    R.check(n > 0, R_BACK, 'any', 'no mesh is gathered')
def editor(P, R):
    f = find1(P, R, 'build_navmesh', crate='bevy_rerecast_editor')
    if not f: return
    ops = {b['path'] for b in P.all if b['crate'] == 'rerecast'} | set(find(P, 'from_mesh', 'TriMesh'))
    q = analyse(P, f, ops)
    ex = [e for e in q.events('call') if strip_gen(e.a[0]).split('::')[-1] == 'extend' and 'TriMesh' in e.a[0]]
    if len(ex) != 1: R.fail(R_ALL, 'append', '%d statements append an affector' % len(ex)); return
    e = ex[0]; h = q.loop(e.blk)
    if h is None: R.fail(R_ALL, 'loop', 'the affectors are not appended in a loop'); return
    r = query_loop(q, h)
    if r[0] is None: R.fail(R_ALL, 'all', 'not all affectors are looked at: %s' % r[2]); return
    item, src, _, some = r
    while src.op == 'call' and call_is(src, 'iter', 'into_iter') and len(src.a[1]) == 1: src = nf(src.a[1][0])
    R.check(src.op == 'param', R_ALL, 'source', 'the affectors stem from %s' % shown(src)[:80])
    ty = q.f.locals[src.a[1]][0] if src.op == 'param' and isinstance(src.a[1], int) else None
    R.check(ty is not None and 'NavmeshAffector' in show_ty(ty) if not isinstance(ty, str) else 'NavmeshAffector' in ty, R_ALL, 'marked', 'the geometry gathered is not that of the affectors')
    child = nf(e.a[3][1]); k, tk = roles(src, ty)
    base = {y for y in walk_nodes(child) if y.op == 'fld' and y.a[1] == 'Some.0' and call_is(nf(y.a[0]), 'from_mesh')}
    if not R.check(len(base) == 1, R_ALL, 'geometry', 'what is appended is %s' % shown(child)[:120]): return
    base = base.pop()
    stores = [y for y in walk_nodes(base) if y.op == 'call' and call_is(y, 'get')]
    store = strip_proj(stores[0].a[1][0]) if stores else None
    t, g, why = own_mesh(base, item, k, store)
    if not R.check(t is not None and store.op == 'param', R_ALL, 'own', 'what is appended is the geometry of %s' % why): return
    c = drop_atom(q, q.guard(e.blk, h), some)
    R.check(equiv(c, B.AND(is_some(q, g), is_some(q, t))), R_ALL, 'condition', 'an affector is appended when %s' % showf(c)[:200])
    for key, ok, msg in collected(q, e, h): R.check(ok, R_ALL, key, msg)
    pose = mk('deref', fld(item, tk))
    for n in ('vertices', 'indices', 'area_types'):
        l = listed(q, fld(child, n))
        if len(l) != 1 or l[0][3] or l[0][2] is None: R.fail(R_ONCE, n, 'the %s appended are not understood: %s' % (n, l[0][3] if l else '')); continue
        cd, cnt, el, _ = l[0]; o = mk('elem', fld(base, n), T_)
        R.check(same(cnt, fld(fld(base, n), '#len')), R_ONCE, n + ' / count', '%s of an affector has %s elements' % (n, shown(cnt)[:80]))
        if n == 'vertices': R.check(moved(el, pose, o), R_ONCE, n, 'vertex t becomes %s' % shown(el)[:200])
        else: R.check(same(el, o), R_ONCE, n, 'element t of the %s becomes %s' % (n, shown(el)[:120]))
    # what is built from is all that was gathered
    acc = nf(e.a[3][0])
    uses = [x for x in q.events('call') if strip_gen(x.a[0]).split('::')[-1] in ('compute_aabb', 'rasterize_triangles', 'mark_walkable_triangles')]
    for x in uses:
        i = 1 if 'rasterize' in x.a[0] else 0
        v = nf(x.a[3][i])
        while v.op == 'after' and 'mark_walkable' in v.a[2]: v = nf(v.a[3])
        R.check(same(v, acc), R_ALL, 'used / ' + strip_gen(x.a[0]).split('::')[-1], 'the build uses %s' % shown(v)[:80])
def roles(src, ty):
    """which part of an item is the mesh and which the transform"""
    s = ty if isinstance(ty, str) else show_ty(ty)
    a, b = s.find('Mesh3d'), s.find('GlobalTransform')
    return ('0', '1') if a < b else ('1', '0')
def moved(v, pose, o):
    v = whole_vector(bare(v))
    if not (call_is(v, 'transform_point', 'transform_point3', 'transform_point3a', 'mul') and len(v.a[1]) == 2): return False
    p, x = bare(v.a[1][0]), bare(v.a[1][1])
    while p.op == 'call' and len(p.a[1]) == 1 and strip_gen(p.a[0]).split('::')[-1] in ('compute_transform', 'affine', 'compute_matrix', 'to_matrix', 'compute_affine', 'to_isometry_') : p = bare(p.a[1][0])
    return same(p, pose) and (same(x, o) or same(whole_vector(x), o))
