from conv import *
from checks.c05 import flat_cases, whole_range
EXPLAIN = ('Both conversions between Mesh and its transmitted form are evaluated on the value graph of the inlined MIR and composed: topology, indices and the values of every attribute must come out alternative by '
           'alternative as they went in; the attribute an element is inserted under must carry the identity it was sent under, and the conditions under which an element is left out are compared with the permitted ones.')
STD = range(8)      # identities of the attributes bevy defines for every mesh
R_TOP = 'the topology arrives unchanged'
R_IDX = 'the indices arrive unchanged and in their own width'
R_ID = 'an attribute arrives under its own identity'
R_VAL = 'attribute values arrive unchanged and in their own format'
R_ALL = 'every standard attribute is passed on'
R_REST = 'nothing else is done to the received mesh'
OPT = 'core::option::Option'
def pick(P, name, ty):
    f = [x for x in find(P, name, ty) if '::_::' not in x]
    return f[0] if len(f) == 1 else None
def run(P, R):
    f, g = pick(P, 'from_mesh', 'SerializedMesh'), pick(P, 'into_mesh', 'SerializedMesh')
    if not f or not g: R.fail('anchor', 'conversions', 'the conversions of Mesh no longer exist'); return
    qF, qG = analyse(P, f), analyse(P, g)
    pF, pG = mk('deref', mk('param', qF.g.uid, 1)), mk('param', qG.g.uid, 1)
    sent = None
    for c, v, e in results(qF):
        if unsat(c): continue
        if v.op != 'agg' or sent is not None: R.fail('anchor', 'from_mesh', 'from_mesh returns %s' % shown(v)[:100]); return
        sent = dict(zip(v.a[3], v.a[4]))
    if sent is None or {'primitive_topology', 'attributes', 'indices'} - set(sent):
        R.fail('anchor', 'from_mesh', 'the transmitted mesh is not put together field by field'); return
    topology(R, qF, sent, qG, pG)
    indices(R, qF, sent, qG, pG)
    attributes(P, R, qF, sent, qG, pG)
    rest(R, qG)
MESH = 'bevy_mesh::mesh::Mesh'
def mesh_calls(q, name):
    return [e for e in q.events('call') if strip_gen(e.a[0]) == MESH + '::' + name]
def getter(v, name):
    """the value a getter of the mesh returned"""
    return [x for x in walk_nodes(v) if x.op == 'call' and strip_gen(x.a[0]) == MESH + '::' + name]
def compare(R, rule, inst, qF, vF, src, qG, vG, slot, cond=True, what=''):
    """vG, over slot, with vF put into slot, must be src"""
    bad = []; n = 0
    for cG, g in flat_cases(qG, nf(vG)):
        cG = B.AND(cG, cond)
        for cF, x in flat_cases(qF, nf(vF)):
            m = {slot: nf(x)}
            c = cG if isinstance(cG, bool) else qG.fsubst(cG, m)
            if c is False: continue
            c = B.AND(c, cF)
            if unsat(c): continue
            n += 1
            bad += identity(qF, c, subst(g, m), src, path=what or inst)
    R.check(n and not bad, rule, inst, '; '.join(sorted(set(bad))[:3]) or 'no value reaches %s' % inst)
def topology(R, qF, sent, qG, pG):
    new = mesh_calls(qG, 'new')
    if len(new) != 1 or qG.loop(new[0].blk) is not None or not implies(qG.facts(new[0].blk), True): R.fail('anchor', 'Mesh::new', 'the received mesh is not created exactly once'); return
    src = getter_of(R, qF, sent['primitive_topology'], 'primitive_topology')
    if src is None: R.fail(R_TOP, 'topology', 'the transmitted topology does not come from the mesh'); return
    compare(R, R_TOP, 'topology', qF, sent['primitive_topology'], src, qG, new[0].a[2][0], fld(pG, 'primitive_topology'))
def getter_of(R, q, v, name):
    s = set()
    for c, x in flat_cases(q, nf(v)):
        s |= set(getter(x, name))
        for a in fatoms(c): s |= set(getter(a, name))
    return s.pop() if len(s) == 1 else None
def indices(R, qF, sent, qG, pG):
    slot = fld(pG, 'indices')
    got = getter_of(R, qF, sent['indices'], 'indices')
    if got is None: R.fail(R_IDX, 'indices', 'the transmitted indices do not come from the mesh'); return
    has = V.eq(V.discr(got, OPT), const(1)); bad = []
    some = False
    for c, x in top(qF, sent['indices']):
        if x.op == 'agg' and x.a[2] == 'None':
            if not implies(c, B.NOT(qF.formula(has))): bad.append('indices are left out when %s' % showf(c)[:120])
        elif not implies(c, qF.formula(has)): bad.append('the transmitted indices are %s' % shown(x)[:80])
    R.check(not bad, R_IDX, 'presence sent', '; '.join(bad[:2]))
    ev = mesh_calls(qG, 'insert_indices')
    ev = [e for e in ev if not unsat(qG.facts(e.blk))]
    R.check(len(ev) >= 1, R_IDX, 'inserted', 'received indices are not put into the mesh')
    allc = False; h2 = qG.formula(V.eq(V.discr(slot, OPT), const(1)))
    for e in ev:
        allc = B.OR(allc, strip_exits(qG, qG.facts(e.blk)))
        pl = fld(slot, 'Some.0')
        src = mk('deref', fld(got, 'Some.0')); srcs = [src, fld(got, 'Some.0')]
        vF = None
        for c, x in top(qF, sent['indices']):
            if x.op == 'agg' and x.a[2] == 'Some': vF = x.a[4][0] if vF is None else vF
        vals = [x for c, x in top(qF, sent['indices']) if x.op == 'agg' and x.a[2] == 'Some']
        if not vals: R.fail(R_IDX, 'values', 'the transmitted indices are always empty'); continue
        for x in vals: compare(R, R_IDX, 'values', qF, x.a[4][0], src, qG, e.a[2][1], pl, strip_exits(qG, qG.facts(e.blk)), what='indices')
    for k in discr_worlds(allc, h2):
        R.check(implies(h2, k), R_IDX, 'presence received', 'received indices are only put into the mesh when %s' % showf(k)[:160])
def strip_exits(q, f):
    """without what is known about loops that have ended"""
    for a in list(fatoms(f)):
        if a.op == 'exit' or a.op == 'le0' and '#len' in shown(a) and any(y.op == 'phi' for y in walk_nodes(a)): f = B.exists(f, [a])
    return f
def discr_of_atom(a):
    """(value, number) of an atom discr(value) == number"""
    if a.op != 'eq0': return None
    p = poly(a.a[0]); ds = [m[0][0] for m in p if len(m) == 1 and m[0][0].op == 'discr']
    if len(ds) != 1 or set(p) - {((ds[0], 1),), ()}: return None
    return ds[0], -p.get((), 0) / p[((ds[0], 1),)]
def discr_worlds(f, keep=True, limit=64):
    """f for every alternative of each enum it branches on"""
    held = set(fatoms(keep)) if not isinstance(keep, bool) else set()
    by = {}
    for a in fatoms(f) if not isinstance(f, bool) else []:
        d = discr_of_atom(a)
        if d and a not in held: by.setdefault(d[0], []).append((a, d[1]))
    out = [f]
    for d, l in by.items():
        dom = FL.discrs(d.a[1]) or {k for a, k in l} | {-1}
        out = [B.restrict(x, {a: k == w for a, k in l}) if not isinstance(x, bool) else x for x in out for w in sorted(dom)]
        if len(out) > limit: out = out[:limit]
    return out
def elements(P, R, qF, v):
    """how the list of attributes is filled -> [(q, condition under which an element is added in a pass, element, mesh attribute, its values, condition of a pass)]"""
    v = nf(v)
    out = []
    if v.op == 'call' and strip_gen(v.a[0]).split('::')[-1] == 'collect':
        x = nf(v.a[1][0])
        if x.op == 'call' and strip_gen(x.a[0]).split('::')[-1] in ('filter_map', 'map'):
            how = strip_gen(x.a[0]).split('::')[-1]
            base, cl = nf(x.a[1][0]), nf(x.a[1][1])
            if not (base.op == 'call' and strip_gen(base.a[0]) == MESH + '::attributes'): R.fail(R_ALL, 'source', 'the transmitted attributes are taken from %s' % shown(base)[:100]); return None
            if cl.op not in ('agg', 'fnptr'): R.fail('anchor', 'closure', 'the conversion of an attribute is %s' % shown(cl)[:80]); return None
            path = cl.a[1] if cl.op == 'agg' else strip_gen(cl.a[0])
            if path not in P.bodies: R.fail('anchor', 'closure', 'the conversion of an attribute, %s, is not known' % path); return None
            q = analyse(P, path); it = mk('param', q.g.uid, 2 if cl.op == 'agg' else 1)
            for c, y, e in results(q):
                if unsat(c): continue
                if how == 'map': out.append((q, c, y)); continue
                if y.op == 'agg' and y.a[2] == 'None': continue
                if not (y.op == 'agg' and y.a[2] == 'Some'): R.fail('anchor', 'closure', 'an attribute becomes %s' % shown(y)[:80]); return None
                out.append((q, c, nf(y.a[4][0])))
            return [(q, c, y, fld(it, '0'), fld(it, '1')) for q, c, y in out]
    # a loop that adds elements one by one
    for e in qF.events('call'):
        if strip_gen(e.a[0]).split('::')[-1] != 'next' or qF.loop(e.blk) is None: continue
        h = qF.loop(e.blk); it = e.a[4]
        src = [nf(y) for x in walk_nodes(it) if x.op == "phi" and x.a[0] == h for y in qF.entry_args(x)[0]]
        if not any(x.op == 'call' and strip_gen(x.a[0]) == MESH + '::attributes' for x in src): continue
        has = qF.formula(V.eq(V.discr(it, OPT), const(1))); it = fld(it, 'Some.0')
        early = ends(qF, h, lambda c: implies(c, B.NOT(has)))
        R.check(not early, R_ALL, 'all sent', 'sending attributes ends early when %s' % '; '.join(early)[:200])
        for st in qF.events('store'):
            if st.blk not in qF.loops[h] or unsat(qF.facts(st.blk)) or '[]' not in st.a[0]: continue
            x = nf(st.a[2])
            if not (x.op == 'agg' and len(x.a[4]) == 2): continue
            g = qF.guard(st.blk, h)
            g = B.restrict(g, {y: B.restrict(has, {y: False}) is False for y in fatoms(has)}) if not isinstance(g, bool) else g
            out.append((qF, g, x, fld(it, '0'), fld(it, '1')))
    if not out: R.fail('anchor', 'attributes', 'the transmitted attributes are %s' % shown(v)[:100]); return None
    return out
def attributes(P, R, qF, sent, qG, pG):
    els = elements(P, R, qF, sent['attributes'])
    if not els: return
    ev = [e for e in mesh_calls(qG, 'insert_attribute') if not unsat(qG.facts(e.blk))]
    if not ev: R.fail('anchor', 'insert_attribute', 'received attributes are not put into the mesh'); return
    # sending
    lost = {}
    for q in {x[0] for x in els}:
        for k in STD:
            got = False
            for q2, c, y, a, vals in els:
                if q2 is not q: continue
                m = [x for x in fatoms(c) if isinstance(x, N)]
                got = B.OR(got, at(q, c, idnum(a), k))
            for w in discr_worlds(got): lost.setdefault(k, []).append(implies(True, w))
    for k in STD: R.check(all(lost.get(k, [False])), R_ALL, 'sent %d' % k, 'the standard attribute with identity %d is not always transmitted' % k)
    nid = 0
    for q, c, y, a, vals in els:
        idv, vv = nf(y.a[4][0]), nf(y.a[4][1])
        for c2, n in flat_cases(q, idv):
            cc = B.AND(c, c2)
            if unsat(cc): continue
            nid += 1
            n = inner(n)
            R.check(implies(cc, q.formula(V.eq(n, idnum(a)))), R_ID, 'sent as %s' % shown(n)[:40], 'an attribute is transmitted under the identity %s when %s' % (shown(n)[:60], showf(cc)[:200]))
    # receiving
    for e in ev: received(R, qG, pG, e, els)
def idnum(a): return inner(fld(mk('deref', a) if a.op != 'deref' and False else deref(a), 'id'))
def deref(a): return mk('deref', a)
def inner(x):
    x = nf(x)
    if x.op == 'agg' and len(x.a[4]) == 1: return nf(x.a[4][0])
    return x if num(x) is not None else nf(fld(x, '0'))
def at(q, c, x, k):
    """c where x has the value k"""
    m = {}
    for a in fatoms(c):
        if a.op != 'eq0' or not any(y is x for y in walk_nodes(a)): continue
        p = poly(a.a[0]); co = p.get(((x, 1),))
        if co is None or set(p) - {((x, 1),), ()}: continue
        m[a] = (co * k + p.get((), 0)) == 0
    return B.restrict(c, m) if m else c
def received(R, q, pG, e, els):
    h = q.loop(e.blk)
    A = nf(e.a[2][1]); slots = set()
    if h is None: R.fail(R_ALL, 'loop', 'received attributes are not gone through'); return
    src = fld(pG, 'attributes')
    F = q.facts(e.blk)
    h = q.chain(e.blk)[-1] if q.chain(e.blk) else h
    # the element of this pass
    el = set()
    for c, x in flat_cases(q, nf(e.a[2][2])):
        for n in list(walk_nodes(x)):
            if n.op == 'elem' and n.a[0] is src or n.op == 'elem' and same(n.a[0], src): el.add(n)
    if len(el) != 1: R.fail('anchor', 'element', 'the values inserted are %s' % shown(e.a[2][2])[:120]); return
    el = el.pop(); pos = el.a[-1][-1] if isinstance(el.a[-1], tuple) else el.a[-1]
    rg = whole_range(q, pos)
    R.check(rg is not None and num(rg[0]) == 0 and same(nf(rg[1]), fld(src, '#len')), R_ALL, 'all received', 'received attributes are gone through from %s' % (shown(rg[0]) + ' to ' + shown(rg[1]) if rg else 'an unknown start'))
    sid = inner(fld(el, '0')); A_id = None
    if rg is not None:
        early = ends(q, h, lambda c: implies(c, B.NOT(q.formula(V.lt(pos, rg[1])))))
        R.check(not early, R_ALL, 'all inserted', 'received attributes are dropped from the first that leads to %s' % '; '.join(early)[:200])
    bad = []
    for c, x in flat_cases(q, A):
        c = B.AND(F, c)
        if unsat(c): continue
        A_id = inner(fld(x, 'id'))
        if not implies(c, q.formula(V.eq(A_id, sid))) and not implies(c, q.formula(V.eq(nf(fld(x, 'id')), nf(fld(el, '0'))))): bad.append('values sent for attribute %s are inserted under %s' % (shown(sid)[-40:], shown(A_id)[:120]))
    R.check(not bad, R_ID, 'received', '; '.join(bad[:2]))
    for q2, c, y, a, vals in els:
        compare2(R, q2, c, nf(y.a[4][1]), mk('deref', vals), q, e.a[2][2], fld(el, '1'))
    # what is left out
    g = q.guard(e.blk, h)
    ok = {}
    search = set()
    for a in fatoms(g):
        if a.op == 'exit': ok[a] = True; search.add(int(a.a[1])); continue
        if is_format(q, a, A, e): ok[a] = True; continue
        p = poly(a.a[0]) if a.op == 'le0' else {}
        if any(m and m[0][0].op == 'phi' and m[0][0].a[0] == h for m in p): ok[a] = False
    r = B.restrict(g, ok) if ok and not isinstance(g, bool) else g
    lefts = []
    for k in STD:
        for w in discr_worlds(at(q, r, sid, k)): lefts.append((k, w))
    bad = sorted({k for k, w in lefts if not implies(True, w)})
    R.check(not bad, R_ALL, 'received', 'received attributes with the identities %s are not always inserted: %s' % (bad, showf(next((B.NOT(w) for k, w in lefts if k in bad), False))[:200]))
    # the search for the attribute
    for s in search:
        if s not in q.loops: continue
        table = A.a[0] if A.op == 'elem' else None
        ids = []
        if table is not None and nf(table).op in ('arr', 'agg'):
            for x in (nf(table).a[0] if nf(table).op == 'arr' and isinstance(nf(table).a[0], tuple) else nf(table).a if nf(table).op == 'arr' else nf(table).a[4]): ids.append(num(inner(fld(nf(x), 'id'))))
        p = (A.a[-1][-1] if isinstance(A.a[-1], tuple) else A.a[-1]) if A.op == 'elem' else None
        rg = whole_range(q, p) if p is not None else None
        R.check(rg is not None and num(rg[0]) == 0 and num(nf(rg[1])) == len(ids), R_ALL, 'search', 'not all known attributes are compared with a received one')
        R.check(set(ids) >= set(STD), R_ALL, 'known', 'the known attributes are %s' % ids)
        for l in q.latches(s):
            c = B.AND(q.facts(l), q.edge(l, s))
            differ = [q.formula(V.eq(inner(fld(A, 'id')), sid)), q.formula(V.eq(nf(fld(A, 'id')), nf(fld(el, '0'))))]
            R.check(any(implies(c, B.NOT(d)) for d in differ), R_ALL, 'match', 'the search goes past the matching attribute when %s' % showf(c)[-160:])
def compare2(R, q2, c0, vF, src, q, vG, slot):
    bad = []; n = 0
    gs = flat_cases(q, nf(vG))
    for cF, x in flat_cases(q2, vF):
        if unsat(B.AND(c0, cF)): continue
        m = {slot: nf(x)}
        for cG, g in gs:
            cc = cG if isinstance(cG, bool) else q.fsubst(cG, m)
            if cc is False or unsat(cc): continue
            n += 1
            bad += identity(q2, B.AND(B.AND(c0, cF), cc), subst(g, m), src, path='values')
    R.check(n >= 2 and not bad, R_VAL, 'values', '; '.join(sorted(set(bad))[:3]) or 'the formats are not told apart')
def is_format(q, a, A, e):
    """the attribute's own format against that of the values to be inserted"""
    if a.op != 'eq0': return False
    p = poly(a.a[0]); ns = [m[0][0] for m in p if len(m) == 1]
    if len(ns) != 2 or () in p: return False
    f = [x for x in ns if x is nf(fld(A, 'format')) or any(same(x, fld(y, 'format')) for c, y in flat_cases(q, A))]
    o = [x for x in ns if x not in f]
    return len(f) == 1 and o and o[0].op == 'call' and len(o[0].a[1]) == 1 and same(nf(o[0].a[1][0]), nf(e.a[2][2]))
def ends(q, h, fine):
    """ways out of a loop other than its end"""
    out = []
    for b in sorted(q.loops[h]):
        for s in q.g.succ[b]:
            if s in q.loops[h] or not q.live[s]: continue
            c = B.AND(q.facts(b), q.edge(b, s))
            if unsat(c) or fine(c): continue
            out.append(showf(q.edge(b, s)) if q.edge(b, s) is not True else showf(q.guard(b, h)))
    return out
SAFE = {'new', 'insert_attribute', 'insert_indices'}
def rest(R, q):
    n = 0
    for e in q.events('call'):
        nm = strip_gen(e.a[0])
        if not nm.startswith(MESH + '::'): continue
        ty = (e.a[1].get('_aty') or [None])[0]
        if ty is not None and show_ty(ty).startswith('&') and not show_ty(ty).startswith('&mut'): continue
        n += 1
        R.check(nm.split('::')[-1] in SAFE, R_REST, nm.split('::')[-1], 'the received mesh is changed by %s' % nm)
    for e in q.events('ret'):
        v = nf(e.a[0])
        R.check(not (v.op == 'call' and strip_gen(v.a[0]).split('::')[-1] not in SAFE), R_REST, 'result', 'the mesh returned is %s' % shown(v)[:100])
