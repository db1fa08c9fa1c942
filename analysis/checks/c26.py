from conv import *
from seqs import *
from checks.c19 import is_some
EXPLAIN = ("The request handler is inlined into one value graph, with the closures it hands to query iterators opened up as loops: the condition of every answer with a result is compared with what the guards must have established, "
           "and what the lists of the answer hold with what the backend returned and with the items of the query, whose filter is read from its type. The wiring of the plugin is read from the calls its functions make.")
R_GUARD = 'a request that cannot be answered completely is answered with an error'
R_AFF = "the response contains every obstacle the backend reports"
R_VIS = 'the response contains every marked visible entity, and no other'
R_WIRE = 'the method is registered under the name the editor asks for'
R_MARK = 'by default every entity with a mesh is marked'
CR = 'bevy_rerecast_editor_integration'
OPT = 'core::option::Option'; RES = 'core::result::Result'
def last(n): return strip_gen(n).split('::')[-1]
def ops(P): return {x for n, t in (('try_from_standard_material', None), ('from_mesh', 'SerializedMesh'), ('serialize', None), ('deserialize', None)) for x in find(P, n, t)}
def is_ok(q, v): return q.formula(V.eq(V.discr(v, RES), const(FL.discr_of(RES, 'Ok'))))
def is_none(q, v): return B.NOT(is_some(q, v))
def run(P, R):
    f = find1(P, R, 'get_navmesh_input', crate=CR)
    if not f: return
    q = analyse(P, f, ops(P), foreign=True)
    uncut(R, q, R_AFF)
    ps = {}
    b = P.bodies[f]
    good = False; vals = []
    for c, v, e in results(q):
        v = nf(v)
        if v.op == 'agg' and v.a[2] == 'Err': continue
        good = c if good is False else B.OR(good, c); vals.append((c, v))
    if not R.check(good is not False, R_GUARD, 'success', 'no request is ever answered'): return
    # guards
    pi = [i for i in range(1, b['argc'] + 1) if 'serde_json::value::Value' in b['locals'][i][0]]
    if R.check(len(pi) == 1, R_GUARD, 'parameters', 'the request is not looked at'):
        p = fld(mk('param', q.g.uid, pi[0]), '0') if b['locals'][pi[0]][0].startswith('bevy_ecs::system::input::In<') else mk('param', q.g.uid, pi[0])
        R.check(implies(good, is_none(q, p)), R_GUARD, 'parameters', 'a request with parameters is answered')
    res = {}
    for e in q.events('call'):
        if last(e.a[0]) in ('get_resource', 'get_resource_ref', 'get_resource_mut'):
            for g in e.a[1].get('gargs', []): res.setdefault(g, []).append(e)
    for nm, want in (('backend', 'backend::NavmeshAffectorBackend'), ('meshes', 'Assets<bevy_mesh::mesh::Mesh>'), ('images', 'Assets<bevy_image::image::Image>'), ('materials', 'Assets<bevy_pbr::pbr_material::StandardMaterial>')):
        es = [e for g, l in res.items() if g.endswith(want) for e in l]
        R.check(es and any(implies(good, is_some(q, e.a[4])) for e in es), R_GUARD, nm, 'a request is answered although there is no %s' % nm)
    # the backend
    runs = [e for e in q.events('call') if last(e.a[0]).startswith('run_system')]
    if not R.check(len(runs) == 1, R_AFF, 'run', 'the backend is run at %d places' % len(runs)): return
    run_ = runs[0]
    R.check(implies(good, is_ok(q, run_.a[4])), R_GUARD, 'failing backend', 'a request is answered although the backend failed')
    own = [y for y in walk_nodes(run_.a[3][1]) if call_is(y, 'get_resource') and 'NavmeshAffectorBackend' in y.a[0]]
    R.check(bool(own), R_AFF, 'backend', 'what is run is %s, not the backend' % shown(run_.a[3][1])[:80])
    # serialisation
    se = [e for e in q.events('call') if last(e.a[0]) == 'serialize' and CR in e.a[0]]
    if not R.check(len(se) == 1, R_GUARD, 'serialisation', 'the response is serialised at %d places' % len(se)): return
    R.check(implies(good, is_ok(q, se[0].a[4])), R_GUARD, 'serialisation', 'a request is answered although the response could not be serialised')
    okv = fld(se[0].a[4], 'Ok.0')
    for c, v in vals:
        x = nf(v.a[4][0]) if v.op == 'agg' and v.a[2] == 'Ok' else None
        R.check(x is not None and same(x, okv) or same(v, se[0].a[4]) or v.op == 'call' and last(v.a[0]) == 'map_err', R_GUARD, 'answer', 'the answer is %s' % shown(v)[:100])
    resp = nf(se[0].a[3][0])
    while resp.op == 'ref': resp = nf(se[0].a[3][0])
    if not R.check(resp.op == 'agg' and (resp.a[1] or '').endswith('NavmeshInputResponse'), R_AFF, 'response', 'what is serialised is %s' % shown(resp)[:80]): return
    # affectors
    got = fld(run_.a[4], 'Ok.0')
    for c, n, el, why in listed(q, fld(resp, 'affector_meshes'), good):
        if unsat(c): continue
        if not R.check(why is None and el is not None, R_AFF, 'list', 'how the obstacles are sent is not understood: %s' % (why or 'none are sent')): continue
        R.check(same(n, fld(got, '#len')), R_AFF, 'all', 'as many obstacles are sent as %s' % shown(n)[:80])
        it = V.elem(got, T_)
        ok = el.op == 'agg' and same(fld(el, 'transform'), fld(it, '0')) and same(fld(el, 'mesh'), fld(it, '1'))
        R.check(ok, R_AFF, 'each', 'obstacle t is sent as %s' % shown(el)[:120])
    visuals(P, R, q, resp, se[0])
    wiring(P, R)
    R.floor(R_GUARD, 8); R.floor(R_AFF, 5)
def visuals(P, R, q, resp, se):
    v = fld(resp, 'visual_meshes')
    ph = {x for x in walk_nodes(nf(v)) if x.op == 'phi' and '[]' in x.a[1] and x.a[0] in q.loops and x.a[2] == q.g.uid}
    if not R.check(len(ph) == 1, R_VIS, 'list', 'how the visuals are gathered is not understood: %s' % shown(nf(v))[:80]): return
    p = ph.pop(); h = p.a[0]; key = p.a[1][:p.a[1].index('[]')]
    ps, oth = pushes(q, key)
    ps_ = [z for z in ps if z.h == h]
    if not R.check(ps_ and not oth and len(ps) == len(ps_), R_VIS, 'filled', 'the visuals are not only appended one by one'): return
    en, bk = q.entry_args(p)
    item, src, why, *some = query_loop(q, h)
    if not R.check(item is not None, R_VIS, 'loop', 'not every entity found is looked at: %s' % why): return
    some = some[0]
    ent = [nf(y) for y in en]
    # the query
    qs = [e for e in q.events('call') if last(e.a[0]) in ('query', 'query_filtered') and any(y is e.a[4] for y in walk_nodes(src))]
    if not R.check(len(qs) == 1, R_VIS, 'query', 'the visuals are not taken from a query'): return
    ga = qs[0].a[1].get('gargs', [])
    data = ga[0] if ga else ''; filt = ga[1] if len(ga) > 1 else '()'
    R.check(filt.replace(' ', '').strip('(),') == 'bevy_ecs::query::filter::With<%s::EditorVisible>' % CR, R_VIS, 'marked', 'the entities are filtered by %s' % filt)
    parts = [x for x in parse_ty(data)[1:]] if data.startswith('(') else []
    names = [show_ty(x) for x in parts]
    pos = {n: i for i, t in enumerate(names) for n in ('InheritedVisibility', 'GlobalTransform', 'Mesh3d', 'MeshMaterial3d') if n in t}
    req = [t for t in names if 'Option' not in t and not any(n in t for n in ('GlobalTransform', 'Mesh3d', 'InheritedVisibility', 'Entity'))]
    R.check(not req, R_VIS, 'components', 'only entities with %s are sent' % ', '.join(req))
    opt = [t for t in names if 'MeshMaterial3d' in t]
    R.check(all('Option' in t for t in opt), R_VIS, 'material', 'entities without a material are not sent')
    if not R.check('InheritedVisibility' in pos and 'Mesh3d' in pos, R_VIS, 'visibility', 'whether an entity is visible is not looked at'): return
    iv = fld(item, str(pos['InheritedVisibility']))
    vis = fld(mk('deref', iv), '0')
    shown_ = B.NOT(q.formula(V.eq(vis, const(0)))); both = True
    alt = [vis] + [e.a[4] for e in q.events('call') if last(e.a[0]) in ('get', 'eq', 'ne') and any('InheritedVisibility' in show_ty(t) for t in e.a[1].get('_aty') or [])]
    for y in alt:
        a = q.formula(y)
        if call_is(y, 'ne'): a = B.NOT(a)
        if not isinstance(a, bool): both = B.AND(both, B.OR(B.AND(a, shown_), B.AND(B.NOT(a), B.NOT(shown_))))
    kept = False
    for z in ps_:
        c = drop_atom(q, q.guard(z.blk, h), some)
        kept = c if kept is False else B.OR(kept, c)
    R.note('sent when', showf(kept)[:300])
    R.check(implies(B.AND(kept, both), shown_), R_VIS, 'hidden', 'an entity that is not visible is sent')
    # left out only if its mesh does not exist
    got = [e for e in q.events('call') if last(e.a[0]) == 'get' and 'Assets' in e.a[0] and h in list(q.chain(e.blk)) + [q.loop(e.blk)] and any('mesh::Mesh' in g for g in [show_ty(t) for t in e.a[1].get('_aty') or []])]
    missing = False
    for e in got:
        n = B.AND(B.NOT(is_some(q, e.a[4])), True)
        missing = n if missing is False else B.OR(missing, n)
    lost = B.AND(B.AND(B.AND(shown_, both), B.NOT(kept)), B.NOT(missing) if missing is not False else True)
    lost = B.restrict(lost, dict(lits(some))) if not isinstance(lost, bool) else lost
    R.check(unsat(lost), R_VIS, 'left out', 'a marked visible entity is not sent although its mesh exists: %s' % showf(lost)[:200])
    pushed = [z.blk for z in ps_]
    R.check(len(ps_) == 1 or all(not (q.reach([a], {h}) - {a}) & {b} for a in pushed for b in pushed if a != b), R_VIS, 'once', 'an entity is sent more than once')
    for z in ps_:
        t = nf(fld(z.val, 'transform'))
        want = fld(item, str(pos.get('GlobalTransform', -1)))
        R.check(same(strip_deref(t), strip_deref(want)), R_VIS, 'transform', 'an entity is sent with the transform %s' % shown(t)[:80])
# ---------------------------------------------------------------- wiring
def wiring(P, R):
    name = None
    calls_ = []
    for b in user_bodies(P, [CR]):
        if b['kind'] not in ('fn', 'assocfn'): continue
        if not any('App' in l[0] or 'RemoteMethods' in l[0] or 'Commands' in l[0] for l in b['locals'][1:b['argc'] + 1]): continue
        q = analyse(P, b['path'])
        for e in q.events('call'): calls_.append((b, q, e))
    fns = lambda v: {y.a[0] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op == 'fnptr'}
    ins = [(b, q, e) for b, q, e in calls_ if last(e.a[0]) == 'insert' and 'RemoteMethods' in e.a[0]]
    ok = None
    for b, q, e in ins:
        if any(x.endswith('::get_navmesh_input') for v in e.a[3] for x in fns(v)) and always(q, e.blk):
            ok = b; lit = nf(e.a[3][1])
            editor = [x for x in P.all if x['crate'] == 'bevy_rerecast_editor' and last(x['path']) == 'fetch_navmesh_input']
            same_ = False
            if editor:
                qe = analyse(P, editor[0]['path'], {b2['path'] for b2 in P.all if b2['crate'] not in ('bevy_rerecast_editor', 'models') and b2['kind'] != 'closure' and '{closure' not in b2['path']}, foreign=True)
                for e2 in qe.events('call'):
                    for v in e2.a[3]:
                        for y in walk_nodes(nf(v)):
                            if y.op == 'agg' and (y.a[1] or '').endswith('BrpRequest'):
                                m = fld(y, 'method')
                                if any(z is lit or same(z, lit) for z in [nf(m)] + list(walk_nodes(nf(m)))): same_ = True
                                R.check(nf(fld(y, 'params')).op == 'agg' and nf(fld(y, 'params')).a[2] == 'None', R_WIRE, 'parameters', 'the editor sends parameters with its request')
            R.check(same_, R_WIRE, 'name', 'the editor asks for another method than %s' % shown(lit)[:60])
            inst = nf(e.a[3][2])
            R.check(inst.op == 'agg' and inst.a[2] == 'Instant', R_WIRE, 'kind', 'the method is registered as %s' % (inst.a[2] if inst.op == 'agg' else shown(inst)[:40]))
    if not R.check(ok is not None, R_WIRE, 'registered', 'the request handler is not registered as a remote method'): return
    adds = [(b, q, e) for b, q, e in calls_ if last(e.a[0]) == 'add_systems' and ok['path'] in {x for v in e.a[3] for x in fns(v)}]
    if R.check(bool(adds), R_WIRE, 'scheduled', 'the function that registers the method is never run'):
        for b, q, e in adds:
            R.check(always(q, e.blk), R_WIRE, 'always', 'the registration is only scheduled sometimes')
            sch = nf(e.a[3][1]); sn = last(sch.a[1] or '') if sch.op == 'agg' else shown(sch)
            R.check(sn in ('Startup', 'PreStartup', 'PostStartup'), R_WIRE, 'schedule', 'the registration is run in %s' % sn)
            conds = {x for v in e.a[3] for x in fns(v)} - {ok['path']}
            R.check({last(c) for c in conds} <= {'resource_exists'}, R_WIRE, 'condition', 'the registration is only run if %s' % ', '.join(sorted(conds)))
            pl = b['path']
            up = [(b2, q2, e2) for b2, q2, e2 in calls_ if last(e2.a[0]) == 'add_plugins' and pl in {x for v in e2.a[3] for x in fns(v)}]
            R.check(up and all(always(q2, e2.blk) for b2, q2, e2 in up) or last(pl) == 'build', R_WIRE, 'plugin', 'the plugin that registers the method is not added')
    # marking
    obs = []
    for b, q, e in calls_:
        if last(e.a[0]) == 'add_observer' and 'RerecastEditorIntegrationPlugin' in b['path']: obs.append((b, q, e))
    if not R.check(len(obs) == 1, R_MARK, 'observer', 'meshes are marked by %d observers' % len(obs)): return
    b, q, e = obs[0]
    s = fld(mk('deref', mk('param', q.g.uid, 1)), 'visibility_settings')
    ad = CR + '::EditorVisibilitySettings'
    want = variant(q, s, ad, 'AllMeshes')
    R.check(equiv(q.facts(e.blk), want), R_MARK, 'setting', 'meshes are marked when %s' % showf(q.facts(e.blk))[:160])
    df = find(P, 'default', 'EditorVisibilitySettings')
    if df:
        rv = [nf(v) for c, v, e3 in results(analyse(P, df[0]))]
        R.check(len(rv) == 1 and rv[0].op == 'agg' and rv[0].a[2] == 'AllMeshes', R_MARK, 'default', 'the default setting is %s' % [shown(x)[:60] for x in rv])
    else: R.fail(R_MARK, 'default', 'there is no default setting')
    hs = {x for v in e.a[3] for x in fns(v)}
    R.check(len(hs) == 1 and any('OnAdd' in g for g in e.a[1].get('gargs', [])) and any(g.endswith('::Mesh3d') for g in e.a[1].get('gargs', [])), R_MARK, 'trigger', 'meshes are not marked when they are added')
    for hp in hs:
        if hp not in P.bodies: continue
        qh = analyse(P, hp)
        ii = [x for x in qh.events('call') if last(x.a[0]) in ('insert', 'insert_if_new', 'try_insert')]
        ok = False
        for x in ii:
            mine = any(call_is(y, 'target', 'entity') and any(z.op == 'param' and z.a[1] == 1 for z in walk_nodes(y)) for y in [nf(x.a[3][0])] + list(walk_nodes(nf(x.a[3][0]))))
            mark = any(y.op == 'agg' and (y.a[1] or '').endswith('EditorVisible') for v in x.a[3] for y in [nf(v)] + list(walk_nodes(nf(v))))
            ok = ok or mine and mark and always(qh, x.blk)
        R.check(ok, R_MARK, 'mark', 'an added mesh is not marked')
