from conv import *
from seqs import *
EXPLAIN = ('The conversion is evaluated on the value graph of the inlined MIR once per shape variant and compared with the geometry of that very variant; compounds are followed as a loop whose only effect is appending the placed part; '
           'the backend is evaluated as a stream of query items with the condition under which each is kept.')
R_SHAPE = 'a shape becomes its own geometry'
R_AREA = 'one unwalkable area type per triangle'
R_NONE = 'unsupported shapes yield nothing'
R_PLACE = "a compound's parts are placed by their own pose"
R_EACH = "every convertible part of a compound is appended, and nothing else"
R_STAT = 'exactly the convertible colliders of static bodies are kept'
R_OWN = 'a collider is paired with its own transform'
ADT = 'parry3d::shape::shape::TypedShape'
NONE = ('Segment', 'Polyline', 'HalfSpace', 'Custom')
def under(q, v, w, depth=8):
    """v in the world w: every branch decided by it taken"""
    for _ in range(depth):
        m = {}
        for x in walk_nodes(v):
            if x.op != 'phi': continue
            cs = [y for g, y in (q.cases(x) or []) if not unsat(B.AND(w, g))]
            if len(cs) == 1 and cs[0] is not x: m[x] = cs[0]
        if not m: return nf(v)
        v = subst(nf(v), m)
    return nf(v)
def run(P, R):
    shapes(P, R); compound(P, R); whole_collider(P, R); backend(P, R)
def own(P, *names): return {x for n in names for x in find(P, n, crate='avian_rerecast')}
def shapes(P, R):
    f = find1(P, R, 'shape_to_trimesh', crate='avian_rerecast')
    if not f: return
    q = analyse(P, f, own(P, 'compound_trimesh'))
    sh = mk('deref', mk('param', q.g.uid, 1)); sub = mk('param', q.g.uid, 2)
    rs = results(q); uncut(R, q, R_SHAPE)
    for var in FL.discrs(ADT) if hasattr(FL, 'discrs') else []: pass
    vs = [x['name'] for x in P.adts[ADT]['variants']] if ADT in P.adts else []
    if not vs: R.fail('anchor', 'TypedShape', 'the list of shapes is unknown'); return
    for var in vs:
        w = variant(q, sh, ADT, var)
        got = [z for c, v, e in rs if not unsat(B.AND(c, w)) for z in tops(q, v, B.AND(c, w), w)]
        if var in NONE:
            R.check(got and all(v.op == 'agg' and v.a[2] == 'None' for c, v in got), R_NONE, var, 'a %s becomes %s' % (var, [shown(v)[:60] for c, v in got][:2])); continue
        if not got or not all(v.op == 'agg' and v.a[2] == 'Some' for c, v in got):
            R.fail(R_SHAPE, var, 'a %s becomes %s' % (var, [shown(v)[:60] for c, v in got][:2])); continue
        pay = mk('deref', fld(sh, var + '.0'))
        for c, v in got:
            v = under(q, nf(v.a[4][0]), w)
            if var == 'Compound':
                R.check(v.op == 'call' and call_is(v, 'compound_trimesh') and same_args(v, [pay, sub]), R_SHAPE, var, 'a compound becomes %s' % shown(v)[:120]); continue
            geometry(P, R, q, var, v, w, fld(pay, 'inner_shape') if var.startswith('Round') else pay, sub)
def tops(q, v, c, w): return [(c2, under(q, v2, w)) for c2, v2 in top(q, v, c) if not unsat(c2)]
def geometry(P, R, q, var, v, w, pay, sub):
    ls = {}
    for n in ('vertices', 'indices', 'area_types'):
        l = [z for z in listed(q, fld(v, n)) if not unsat(B.AND(z[0], w))]
        if len(l) != 1 or l[0][3] or l[0][2] is None: R.fail(R_SHAPE, var + ' / ' + n, 'the %s of a %s are not understood: %s' % (n, var, l[0][3] if l else '')); return
        ls[n] = (under(q, l[0][1], w), under(q, l[0][2], w))
    n, el = ls['vertices']; el = whole_vector(bare(el))
    src = el.a[0] if el.op == 'elem' and el.a[1] is T_ else None
    if src is None: R.fail(R_SHAPE, var + ' / vertices', 'vertex t of a %s is %s' % (var, shown(el)[:120])); return
    m, ix = ls['indices']; ix = bare(ix)
    if ix.op == 'agg':
        ys = [nf(y) for y in ix.a[4]]
        b = {y.a[0] if y.op == 'elem' and num(y.a[1]) == k else None for k, y in enumerate(ys)}
        ix = nf(b.pop()) if len(b) == 1 and None not in b and len(ys) == 3 else ix
    isrc = ix.a[0] if ix.op == 'elem' and ix.a[1] is T_ else None
    if isrc is None: R.fail(R_SHAPE, var + ' / indices', 'triangle t of a %s is %s' % (var, shown(ix)[:120])); return
    src, isrc = bare(src), bare(isrc)
    if var in ('Triangle', 'RoundTriangle'):
        R.check(src.op == 'arr' and len(src.a) == 3 and all(same(bare(y), fld(pay, c)) for c, y in zip('abc', src.a)), R_SHAPE, var + ' / vertices', 'the vertices of a %s become %s' % (var, shown(src)[:120]))
        R.check(isrc.op == 'arr' and len(isrc.a) == 1 and nf(isrc.a[0]).op == 'arr' and [num(y) for y in nf(isrc.a[0]).a] == [0, 1, 2], R_SHAPE, var + ' / indices', 'the indices of a %s become %s' % (var, shown(isrc)[:120]))
    elif var == 'TriMesh':
        for what, s in (('vertices', src), ('indices', isrc)):
            s = s.a[0] if s.op == 'deref' else s
            R.check(call_is(nf(s), what) and same_args(nf(s), [pay]), R_SHAPE, var + ' / ' + what, 'the %s of a triangle mesh become %s' % (what, shown(s)[:120]))
    else:
        for what, k, s in (('vertices', '0', src), ('indices', '1', isrc)):
            c = nf(s.a[0]) if s.op == 'fld' and s.a[1] == k else s
            R.check(s.op == 'fld' and s.a[1] == k and call_is(c, 'to_trimesh') and same(c.a[1][0], pay) and all(same(y, sub) for y in c.a[1][1:]), R_SHAPE, var + ' / ' + what, 'the %s of a %s become %s' % (what, var, shown(s)[:140]))
    k, a = ls['area_types']
    R.check(same(k, m) or same(k, under(q, fld(isrc, '#len'), w)) , R_AREA, var + ' / count', 'a %s gets %s area types for %s triangles' % (var, shown(k)[:80], shown(m)[:80]))
    z = num(fld(a, '0')) if a.op == 'agg' else num(a)
    R.check(z == 0, R_AREA, var, 'the area type of a triangle of a %s is %s' % (var, shown(a)[:60]))
def root_of(y, c, k):
    """element a component of which is y"""
    if y.op == 'fld' and y.a[1].split('.')[-1] == c: return strip_proj(fld(y.a[0], '.'.join(y.a[1].split('.')[:-1])) if '.' in y.a[1] else y.a[0])
    if y.op == 'elem' and num(y.a[1]) == k: return nf(y.a[0])
    return None
def whole_vector(v):
    """the vector all three components stem from"""
    v = nf(v)
    if v.op == 'agg' and tuple(v.a[3] or ()) == ('x', 'y', 'z'):
        b = {root_of(nf(y), c, k) for c, k, y in zip('xyz', range(3), v.a[4])}
        if len(b) == 1 and None not in b: return strip_proj(nf(b.pop()))
        parts = [[m[0][0] for m, w in poly(y).items() if len(m) == 1 and m[0][1] == 1 and w == 1] for y in v.a[4]] if all(sum(1 for _ in poly(y)) == 2 for y in v.a[4]) else []
        if parts and all(len(x) == 2 for x in parts):
            vs = [{x.a[0] for x in l if x.op == 'fld' and x.a[1].split('.')[-1] == c} for c, l in zip('xyz', parts)]
            if vs[0] == vs[1] == vs[2] and len(vs[0]) == 2: return mk('call', 'add', tuple(sorted(vs[0], key=lambda x: x.id)), None)
    return strip_proj(v)
def strip_proj(v):
    v = nf(v)
    while v.op == 'deref' or v.op == 'fld' and v.a[1] in ('*', 'coords'): v = nf(v.a[0])
    return v
def placed(v, pose, el):
    """v is el moved by pose"""
    v = whole_vector(bare(v))
    if v.op != 'call': return False
    n = strip_gen(v.a[0]).split('::')[-1]; a = v.a[1]
    def rot(x): return same(bare(x), fld(pose, 'rotation'))
    def tra(x):
        x = bare(x)
        while x.op == 'fld' and x.a[1] == 'vector' or x.op == 'deref': x = bare(x.a[0])
        return same(x, fld(pose, 'translation'))
    def iso(x):
        x = bare(x)
        if same(x, pose): return True
        if x.op == 'agg' and {'rotation', 'translation'} <= set(x.a[3] or ()): return rot(fld(x, 'rotation')) and tra(fld(x, 'translation'))
        if call_is(x, 'new', 'from_translation_rotation') and len(x.a[1]) == 2: return tra(x.a[1][0]) and rot(x.a[1][1])
        if call_is(x, 'from_rotation_translation') and len(x.a[1]) == 2: return rot(x.a[1][0]) and tra(x.a[1][1])
        return False
    own_ = lambda x: same(bare(x), el)
    if n in ('mul', 'mul_vec3', 'mul_vec3a') and len(a) == 2 and own_(a[1]): return iso(a[0])
    if n in ('transform_point', 'transform_point3', 'transform_point3a') and len(a) == 2 and own_(a[1]): return iso(a[0])
    if n == 'add' and len(a) == 2:
        for x, y in (a, a[::-1]):
            x = bare(x)
            if tra(y) and call_is(x, 'mul', 'mul_vec3', 'mul_vec3a') and rot(x.a[1][0]) and own_(x.a[1][1]): return True
    return False
def compound(P, R):
    f = find1(P, R, 'compound_trimesh', crate='avian_rerecast')
    if not f: return
    q = analyse(P, f, own(P, 'shape_to_trimesh') | set(find(P, 'extend', 'TriMesh')))
    c = mk('deref', mk('param', q.g.uid, 1)); sub = mk('param', q.g.uid, 2)
    ex = [e for e in q.events('call') if strip_gen(e.a[0]).split('::')[-1] == 'extend' and 'TriMesh' in e.a[0]]
    if len(ex) != 1: R.fail(R_EACH, 'append', '%d statements append a part' % len(ex)); return
    e = ex[0]; h = q.loop(e.blk)
    if h is None or len(q.chain(e.blk)) != 1: R.fail(R_EACH, 'loop', 'the parts are not appended in one loop'); return
    x, a, b, why = passes(q, h)
    if x is None: R.fail(R_EACH, 'all', 'not all parts are looked at: %s' % why); return
    dv = e.a[3]
    kids = {y.a[0] for y in walk_nodes(nf(dv[1])) if y.op == 'fld' and y.a[1] == 'Some.0' and call_is(nf(y.a[0]), 'shape_to_trimesh')}
    if len(kids) != 1: R.fail(R_EACH, 'part', 'what is appended is %s' % shown(nf(dv[1]))[:120]); return
    k = nf(kids.pop())
    parts = {y for y in walk_nodes(k) if y.op == 'elem' and same(y.a[1], x)}
    ls = {y.a[0] for y in parts}
    ok = len(ls) == 1 and call_is(nf(strip_deref(next(iter(ls)))), 'shapes') and same_args(nf(strip_deref(next(iter(ls)))), [c])
    if not R.check(ok, R_EACH, 'own part', 'what is appended is %s' % shown(k)[:140]): return
    lst = next(iter(ls)); part = mk('elem', lst, x)
    R.check(num(a) == 0 and same(b, fld(lst, '#len')), R_EACH, 'all', 'the parts from %s to %s are looked at' % (shown(a)[:40], shown(b)[:60]))
    s = nf(k.a[1][0]) if len(k.a[1]) == 2 else k
    R.check(call_is(s, 'as_typed_shape') and same(strip_deref(s.a[1][0]), fld(part, '1')) and same(k.a[1][1], sub), R_EACH, 'shape', 'the shape converted is %s' % shown(k)[:140])
    some = q.formula(V.eq(V.discr(k, 'core::option::Option'), const(FL.discr_of('core::option::Option', 'Some'))))
    g = q.guard(e.blk, h)
    R.check(equiv(B.AND(g, inside(q, h)), B.AND(some, inside(q, h))), R_EACH, 'condition', 'a part is appended when %s' % showf(g)[:160])
    pose = fld(part, '0'); child = fld(k, 'Some.0')
    for n in ('vertices', 'indices', 'area_types'):
        l = listed(q, fld(nf(dv[1]), n))
        if len(l) != 1 or l[0][3] or l[0][2] is None: R.fail(R_PLACE, n, 'the %s of a part are not understood: %s' % (n, l[0][3] if l else '')); continue
        cd, cnt, el, _ = l[0]; o = mk('elem', fld(child, n), T_)
        R.check(same(cnt, fld(fld(child, n), '#len')), R_PLACE, n + ' / count', '%s of a part has %s elements' % (n, shown(cnt)[:80]))
        if n == 'vertices': R.check(placed(el, pose, o), R_PLACE, n, 'vertex t of a part becomes %s' % shown(el)[:200])
        else: R.check(same(el, o), R_PLACE, n, 'element t of the %s of a part becomes %s' % (n, shown(el)[:120]))
    for key, ok, msg in collected(q, e, h): R.check(ok, R_EACH, key, msg)
    for c2, v, e2 in results(q): R.check(same(v, dv[0]), R_EACH, 'returned', 'a compound becomes %s' % shown(v)[:120])
def inside(q, h):
    c = True
    for x in q.header_phis(h):
        for b in q.loops[h]:
            u = q.upper(x, b)
            if u is not None and (q.induction(x) or (0, 0))[1] == 1: c = B.AND(c, q.formula(mk('lt', x, u))); break
    return c
def whole_collider(P, R):
    f = find1(P, R, 'to_trimesh', 'Collider', crate='avian_rerecast')
    if not f: return
    q = analyse(P, f, own(P, 'shape_to_trimesh'))
    for c, v, e in results(q):
        ok = call_is(v, 'shape_to_trimesh') and len(v.a[1]) == 2 and same(v.a[1][1], mk('param', q.g.uid, 2))
        s = nf(v.a[1][0]) if ok else v
        ok = ok and call_is(s, 'as_typed_shape')
        s = strip_deref(s.a[1][0]) if ok else s
        R.check(ok and call_is(s, 'shape') and same_args(s, [mk('deref', mk('param', q.g.uid, 1))]), R_SHAPE, 'Collider', 'a collider becomes %s' % shown(v)[:140])
def backend(P, R):
    f = find1(P, R, 'collider_backend', crate='avian_rerecast')
    if not f: return
    ops = own(P, 'to_trimesh')
    q = analyse(P, f, ops)
    n = 0
    for e in q.events('ret'):
        s = stream(P, q, e.a[0], ops)
        if s is None: R.fail(R_STAT, 'collider_backend', 'how the colliders are gathered is not understood: %s' % shown(nf(e.a[0]))[:120]); continue
        R.check(same(s.src, mk('param', q.g.uid, 1)), R_STAT, 'source', 'what is gathered stems from %s' % shown(s.src)[:80])
        keep = False; tm = None
        for c, v in s.out:
            n += 1
            v = nf(v)
            if not R.check(v.op == 'agg' and len(v.a[4]) == 2, R_OWN, 'entry', 'an entry is %s' % shown(v)[:100]): continue
            a, b = nf(v.a[4][0]), nf(v.a[4][1])
            R.check(same(a, mk('deref', fld(s.it, '0'))) or same(bare(a), mk('deref', fld(s.it, '0'))), R_OWN, 'transform', 'an entry has the transform %s' % shown(a)[:100])
            t = nf(b.a[0]) if b.op == 'fld' and b.a[1] == 'Some.0' else b
            ok = call_is(t, 'to_trimesh') and same(strip_deref(t.a[1][0]), fld(s.it, '1'))
            if R.check(ok, R_OWN, 'geometry', 'an entry has the geometry %s' % shown(b)[:100]): tm = t
            keep = B.OR(keep, c) if keep is not False else c
        if tm is None: continue
        some = q.formula(V.eq(V.discr(tm, 'core::option::Option'), const(1)))
        body = {}
        for a in fatoms(keep) if not isinstance(keep, bool) else []:
            for y in walk_nodes(a) if hasattr(a, 'op') else []:
                if y.op == 'call' and strip_gen(y.a[0]).split('::')[-1] == 'get' and len(y.a[1]) == 2: body[y] = 1
        if not R.check(len(body) == 1, R_STAT, 'body', 'the body of a collider is not looked up'): continue
        g = next(iter(body))
        R.check(same(nf(g.a[1][0]), mk('param', q.g.uid, 2)) and same(strip_bits(g.a[1][1]), fld(mk('deref', fld(s.it, '2')), 'body')), R_STAT, 'own body', 'the body looked up is %s' % shown(g)[:120])
        okb = q.formula(V.eq(V.discr(g, 'core::result::Result'), const(FL.discr_of('core::result::Result', 'Ok'))))
        bd = mk('deref', fld(g, 'Ok.0'))
        forms = [q.formula(mk('call', y.a[0], y.a[1], y.a[2])) for y in calls_in(keep, 'is_static') if same(strip_deref(y.a[1][0]), fld(g, 'Ok.0'))]
        for adt in [p for p in P.adts if p.endswith('::RigidBody')]: forms.append(variant(q, bd, adt, 'Static'))
        forms.append(variant(q, bd, 'avian3d::dynamics::rigid_body::RigidBody', 'Static')) if FLhas('avian3d::dynamics::rigid_body::RigidBody') else None
        R.check(any(equiv(keep, B.AND(some, B.AND(okb, s_))) for s_ in forms), R_STAT, 'condition', 'a collider is kept when %s' % showf(keep)[:200])
    R.check(n > 0, R_STAT, 'any', 'no collider is gathered')
def FLhas(a):
    try: FL.discr_of(a, 'Static'); return True
    except Exception: return False
def strip_bits(v):
    return nf(v)
