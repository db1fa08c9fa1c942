from conv import *
from seqs import *
EXPLAIN = ("Every handler of the editor that can fail is inlined into one value graph: for each statement that changes the world (through Commands, a mutable resource or an asset store) the condition under which it runs "
           "must contradict the condition of every failing return. On the ways that succeed, the loops that clear and refill the scene are checked to run over everything.")
R_FAIL = 'nothing is changed before the last step that can fail'
R_KEEP = 'a failure is reported and does not end the editor'
R_OLD = 'a successful load removes every affector and visual of the previous scene'
R_NEW = 'a successful load spawns every affector and visual of the response'
R_BUILD = 'a successful build replaces the navmesh by its own result'
CR = 'bevy_rerecast_editor'
HOLD = ('Commands<', 'ResMut<', 'World', 'Query<', 'Single<', 'EntityCommands<', 'App')
def last(n): return strip_gen(n).split('::')[-1]
def ops(P): return {b['path'] for b in P.all if b['crate'] not in (CR, 'models') and b['kind'] != 'closure' and '{closure' not in b['path']}
def holders(b):
    """parameters through which the world can be changed"""
    out = set()
    for i in range(1, b['argc'] + 1):
        t = b['locals'][i][0]
        if any(h in t for h in HOLD) and not ('Query<' in t and '&mut' not in t.split('Query<', 1)[1]): out.add(i)
    return out
def root(v):
    """the parameter a place or reference belongs to"""
    for _ in range(60):
        if v.op == 'ref':
            k = v.a[0][0]
            if isinstance(k, int): return k
            v = k[1]; continue
        if v.op == 'param': return v.a[1]
        if v.op == 'call' and v.a[1]: v = v.a[1][0]; continue
        if v.op == 'after': v = v.a[3]; continue
        if v.op in ('fld', 'deref', 'elem', 'sel', 'upd', 'store', 'lift', 'agg') and v.a and hasattr(v.a[0], 'op'): v = v.a[0]; continue
        return v if v.op == 'phi' else None
    return None
def effects(P, q, b):
    hs = holders(b)
    for e in q.events('call'):
        ci = e.a[1]; ty = ci.get('_aty') or []
        if last(e.a[0]) in ('deref', 'deref_mut', 'reborrow', 'entity') and not 'EntityCommands' in e.a[0]: continue
        hit = None
        for i, v in enumerate(e.a[2]):
            t = ty[i] if i < len(ty) else ('?',)
            if t[0] != '&mut' and not ('EntityCommands' in e.a[0] and i == 0): continue
            r = root(v)
            if isinstance(r, int) and r in hs: hit = i; break
            if hasattr(r, 'op') and isinstance(r.a[1][0], int) and r.a[1][0] in hs: hit = i; break
            if 'Commands' in e.a[0] and i == 0 or any(x in show_ty(t) for x in ('Commands<', 'ResMut<', 'Assets<', 'World')): hit = i; break
        if hit is not None: yield e, last(e.a[0])
    for e in q.events('store'):
        k = e.a[0]
        if not isinstance(k, tuple): continue
        if len(k) > 1 and isinstance(k[0], int) and k[0] in hs and '*' in k: yield e, 'assignment'
        elif isinstance(k[0], tuple) and k[0][0] == 'O' and root(k[0][1]) in hs: yield e, 'assignment'
def run(P, R):
    hs = [b for b in user_bodies(P, [CR]) if b['kind'] == 'fn' and '{closure' not in b['path'] and b['locals'][0][0].startswith('core::result::Result<') and holders(b) and not b.get('impl_self')]
    if not R.check(hs, R_FAIL, 'handlers', 'no handler of the editor can fail'): return
    for b in hs:
        q = analyse(P, b['path'], ops(P), foreign=True); n = last(b['path'])
        uncut(R, q, R_FAIL)
        bad = False; good = False
        for c, v, e in results(q):
            v = nf(v)
            if v.op == 'agg' and v.a[2] == 'Ok': good = c if good is False else B.OR(good, c)
            else: bad = c if bad is False else B.OR(bad, c)
        R.check(good is not False, R_FAIL, n + ' / success', '%s never succeeds' % n)
        seen = {}
        for e, what in effects(P, q, b):
            ok = bad is False or unsat(B.AND(reaching(q, e.blk), bad))
            seen[what] = seen.get(what, True) and ok
        for w, ok in sorted(seen.items()): R.check(ok, R_FAIL, '%s / %s' % (n, w), 'in %s, %s may happen although a later step fails' % (n, w))
        R.note('effects of ' + n, sorted(seen))
        if last(b['path']) == 'fetch_navmesh_input' or any(last(e.a[0]) == 'despawn' for e in q.events('call')): load(P, R, q, b)
        elif any(last(e.a[0]) == 'insert_resource' for e in q.events('call')): build(P, R, q, b, good)
    keep(P, R)
    R.floor(R_FAIL, 6)
def reaching(q, b):
    """what holds when block b is run, in whichever pass"""
    f = q.facts(b)
    for h in q.chain(b): f = B.AND(f, q.facts(h))
    return f
# ---------------------------------------------------------------- the load
def bundle(q, e):
    """components of what is spawned"""
    out = []
    def flat(v):
        v = nf(v)
        if v.op == 'agg' and v.a[0] == 'tuple':
            for x in v.a[4]: flat(x)
        else: out.append(v)
    flat(e.a[3][1])
    for e2 in q.events('call'):
        if last(e2.a[0]) in ('insert', 'insert_if_new') and 'EntityCommands' in e2.a[0] and any(y is e.a[4] for y in walk_nodes(e2.a[3][0])) and q.loop(e2.blk) == q.loop(e.blk): flat(e2.a[3][1])
    return out
def named(vs, n): return [v for v in vs if v.op == 'agg' and strip_gen(v.a[1] or '').split('::')[-1] == n]
def load(P, R, q, b):
    n = last(b['path'])
    es = q.events('call')
    oks = [e for e in q.events('ret')]
    sp = [e for e in es if last(e.a[0]) == 'spawn']
    if not R.check(sp, R_NEW, 'spawn', 'nothing is spawned'): return
    # what is removed
    ds = [e for e in es if last(e.a[0]) in ('despawn', 'try_despawn')]
    done = set()
    for d in ds:
        h = q.loop(d.blk)
        if h is None: continue
        item, src, why, *_ = query_loop(q, h)
        if not R.check(item is not None, R_OLD, 'loop', 'despawning: %s' % why): continue
        who = [y for y in walk_nodes(d.a[3][0]) if y is item]
        k = root(src)
        t = b['locals'][k][0] if isinstance(k, int) else ''
        t = t.replace(' ', '')
        if not R.check(bool(who), R_OLD, 'entity', 'what is despawned is not the entity found'): continue
        if not R.check(every_pass(q, d.blk, h), R_OLD, 'every one', 'not every entity found is despawned'): continue
        fine = all(not q.reach([s.blk], set()) & {h} for s in sp)
        R.check(fine, R_OLD, 'first', 'entities are despawned after new ones are spawned')
        for m in ('VisualMesh', 'NavmeshAffector'):
            if filters(t, m): done.add(m)
        gate = [B.AND(q.facts(s.blk), q.facts(h)) for s in sp]
        R.check(all(q.dominates(h, s.blk) for s in sp), R_OLD, 'always', 'entities are not despawned on every way to a new scene')
    for m in ('VisualMesh', 'NavmeshAffector'):
        R.check(m in done, R_OLD, m, 'the entities with a %s of the previous scene are not all removed' % m)
    # what is spawned
    got = {}
    for s in sp:
        vs = bundle(q, s); h = q.loop(s.blk)
        marks = [m for m in ('NavmeshAffector', 'VisualMesh') if named(vs, m)]
        if not marks: R.check(False, R_NEW, 'marker', 'an entity without a marker is spawned and never removed again'); continue
        m = marks[0]; got.setdefault(m, []).append(s)
        if not R.check(named(vs, 'Mesh3d'), R_NEW, m + ' / mesh', 'an entity is spawned without a mesh'): continue
        if not R.check(h is not None, R_NEW, m + ' / loop', 'it is not spawned for each item of the response'): continue
        x, a, bnd, why = passes(q, h)
        if not R.check(x is not None and num(a) == 0, R_NEW, m + ' / all', 'not every item of the response is looked at: %s' % why): continue
        want = 'affector_meshes' if m == 'NavmeshAffector' else 'visual_meshes'
        lst = bnd.a[0] if bnd.op == 'fld' and bnd.a[1].endswith('#len') else None
        nm = bnd.a[1] if bnd.op == 'fld' else ''
        okl = want in shown(bnd, 12)
        if not R.check(okl, R_NEW, m + ' / list', 'as many are spawned as %s' % shown(bnd)[:100]): continue
        if m == 'NavmeshAffector': R.check(every_pass(q, s.blk, h), R_NEW, m + ' / each', 'not every affector of the response is spawned')
        else:
            c = q.guard(s.blk, h); inside = q.formula(mk('lt', x, bnd))
            lost = B.AND(inside, B.NOT(c))
            R.check(visual_lost(q, lost, x, bnd), R_NEW, m + ' / each', 'a visual of the response is not spawned although its mesh was sent')
        tr = [v for v in vs if any(call_is(y, 'compute_transform') or y.op == 'fld' and y.a[1].endswith('transform') for y in [v] + list(walk_nodes(v))) and not named([v], 'Mesh3d')]
        own = [y for v in tr for y in walk_nodes(v) if y.op == 'elem' and same(nf(y.a[1]), x)]
        R.check(bool(own), R_NEW, m + ' / transform', 'it is not placed where its own entry says')
        if m == 'NavmeshAffector':
            mv = nf(named(vs, 'Mesh3d')[0].a[4][0])
            adds = [y for y in [mv] + list(walk_nodes(mv)) if call_is(y, 'add')]
            if R.check(bool(adds), R_NEW, m + ' / added', 'its mesh is not added to the assets'):
                geometry(R, q, adds[0], x, m)
    for m in ('NavmeshAffector', 'VisualMesh'):
        R.check(m in got, R_NEW, m, 'no entity with a %s is spawned' % m)
    gizmo_clear(R, q, b)
def filters(t, m):
    """does the query (type) select every entity with marker m?"""
    i = t.rfind('::%s>' % m)
    if i < 0: return False
    if 'Without<' in t or 'Changed<' in t or 'Added<' in t: return False
    one = t.count('With<') - ('Mesh3d>' in t)
    return one == 1 or 'Or<(' in t and t.index('Or<(') < i
def visual_lost(q, lost, x, bnd):
    """a visual is left out only if its mesh is not in the list sent"""
    if unsat(lost): return True
    n = nf(bnd)
    while n.op == 'fld' and not n.a[1].split('.')[-1] == 'visual_meshes':
        if n.a[1].endswith('visual_meshes.#len'): n = fld(n.a[0], n.a[1][:-5]); break
        n = nf(n.a[0])
    if n.op != 'fld': return False
    own = V.elem(n, x)
    resp = n.a[0] if n.a[1] == 'visual_meshes' else fld(n.a[0], n.a[1][:-len('.visual_meshes')])
    there = q.formula(mk('lt', fld(own, 'mesh'), fld(fld(resp, 'meshes'), '#len')))
    return unsat(B.AND(lost, there))
def geometry(R, q, add, x, m):
    w = list(walk_nodes(add))
    vs = [y for y in w if y.op == 'fld' and y.a[1].endswith('vertices')]
    own = [y for y in vs if any(z.op == 'elem' and same(nf(z.a[1]), x) for z in walk_nodes(y))]
    R.check(own and len(own) == len(vs), R_NEW, m + ' / vertices', 'its vertices are not those of its own entry')
    pos = [y for y in w if y.op == 'agg' and (y.a[1] or '').endswith('MeshVertexAttributeId') and num(y.a[4][0]) == 0]
    R.check(bool(pos), R_NEW, m + ' / positions', 'its vertices are not used as positions')
    tl = [y for y in w if y.op == 'agg' and (y.a[1] or '').endswith('PrimitiveTopology')]
    R.check(tl and all(y.a[2] == 'TriangleList' for y in tl), R_NEW, m + ' / topology', 'its triangles are not drawn as a triangle list')
    ix = [y for y in w if call_is(y, 'with_inserted_indices', 'insert_indices')]
    R.check(bool(ix), R_NEW, m + ' / indices', 'its indices are dropped')
def gizmo_clear(R, q, b):
    cl = [e for e in q.events('call') if last(e.a[0]) == 'clear' and 'izmo' in e.a[0] + str(e.a[1].get('gargs'))]
    ok = False
    for e in cl:
        h = q.loop(e.blk)
        if h is None: continue
        item, src, why, *_ = query_loop(q, h)
        if item is None: continue
        k = root(src); t = b['locals'][k][0] if isinstance(k, int) else ''
        if 'Gizmo' in t and 'With' not in t: ok = True
    R.check(ok, R_OLD, 'lines', 'the lines drawn for the previous scene are not all cleared')
# ---------------------------------------------------------------- the build
def build(P, R, q, b, good):
    es = [e for e in q.events('call') if last(e.a[0]) == 'insert_resource' and any('Navmesh' in g and 'Config' not in g for g in e.a[1].get('gargs', []))]
    if not R.check(len(es) == 1, R_BUILD, 'replaced', 'the navmesh is replaced at %d places' % len(es)): return
    e = es[0]
    R.check(q.loop(e.blk) is None and implies(good, B.AND(q.facts(e.blk), True)), R_BUILD, 'always', 'a successful build does not always replace the navmesh')
    v = nf(e.a[3][1])
    if not R.check(v.op == 'agg' and set(v.a[3]) == {'poly_mesh', 'detail_mesh'}, R_BUILD, 'both', 'the navmesh is %s' % shown(v)[:80]): return
# ---------------------------------------------------------------- failures
def keep(P, R):
    mains = [b for b in user_bodies(P, [CR]) if b['path'] == CR + '::main']
    if not R.check(len(mains) == 1, R_KEEP, 'main', 'the editor has no main function'): return
    q = analyse(P, mains[0]['path'])
    st = [e for e in q.events('call') if last(e.a[0]) in ('set', 'get_or_init') and any('ErrorContext' in str(x) or 'error' in str(x) for x in (e.a[1].get('gargs'), e.a[1].get('rargs')))]
    fn = [y for e in st for v in e.a[3][1:] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op in ('fnptr', 'fn')]
    names = sorted({last(y.a[0]) for y in fn})
    R.note('error handler', names)
    R.check(bool(names) and not set(names) & {'panic'} and all(n in ('warn', 'error', 'info', 'debug', 'trace', 'ignore') for n in names), R_KEEP, 'handler', 'errors of the editor are handled by %s' % (names or 'the default handler, which panics'))
    runs = [e for e in q.events('call') if last(e.a[0]) == 'run' and 'App' in e.a[0]]
    R.check(runs and all(any(q.dominates(s.blk, r.blk) for s in st) for r in runs), R_KEEP, 'before', 'the handler is not set before the editor runs')
