from conv import *
from seqs import *
from checks.c19 import is_some
from checks.c26 import ops, last, CR
EXPLAIN = ("Lookup tables are found by their type (a map from handles to indices when sending, from indices to handles when receiving). Every entry made, in the value graph of the inlined request handler, material conversion and editor load, "
           "is matched with the item appended or added at the same time, under the same condition and for the same key; every index or handle used must be one found in, or just put into, the table under the user's own key.")
R_SEND = 'an index sent is the position of the item converted from the asset it stands for'
R_USE = "whoever refers to an asset sends that asset's index"
R_LIST = 'the lists sent are the ones the indices count'
R_LOAD = 'an index received is looked up in the list it belongs to'
R_SHOW = 'a received entity or material uses what its own index stands for'
OPT = 'core::option::Option'
CONV = {'Mesh': 'from_mesh', 'Image': 'from_image', 'StandardMaterial': 'try_from_standard_material'}
BACK = {'Mesh': 'into_mesh', 'Image': 'into_image', 'StandardMaterial': 'into_standard_material'}
def key_of(v):
    """the handle (or index) a key stands for"""
    v = nf(v)
    while True:
        w = strip_deref(v); w = bare(w)
        if w.op == 'fld' and w.a[1] == '0' and w.a[0].op in ('deref',): pass
        if w is v: break
        v = w
    if v.op == 'cast' or v.op == 'toint': return key_of(v.a[1])
    return v
def hkey(v):
    v = key_of(v)
    while v.op == 'fld' and v.a[1] == '0' and v.a[0].op == 'deref': v = key_of(v.a[0])
    return v
def uncast(v):
    v = nf(v)
    while v.op in ('cast', 'toint'): v = nf(v.a[1])
    return v
def root(q, e):
    """the variable the first argument of a call is a reference to"""
    if not e.a[2]: return None
    v = nf(e.a[2][0])
    return tuple(v.a[0]) if v.op == 'ref' else None
class Entry: pass
def tables(q, send):
    """table -> (kind, entries, lookups, other uses)"""
    T = {}
    for e in q.events('call'):
        nm = last(e.a[0])
        for i, v in enumerate(e.a[2]):
            v = nf(v)
            if v.op == 'ref' and not v.a[1]: T.setdefault(tuple(v.a[0]), []).append((nm, i, e))
    out = {}
    for k, us in T.items():
        kind = None
        for nm, i, e in us:
            if i == 1 and nm in (CONV['StandardMaterial'], BACK['StandardMaterial']): kind = 'Image'
            g = e.a[1].get('gargs', [])
            if 'HashMap' in strip_gen(e.a[0]) and i == 0 and len(g) >= 2:
                a = g[0] if send else g[1]; b = g[1] if send else g[0]
                if b == 'u32' and 'Handle<' in a: kind = a[a.index('Handle<') + 7:].rstrip('>').split('::')[-1]
        if kind: out[k] = (kind, us)
    return out
READ = {'get', 'contains_key', 'len', 'is_empty', 'index', 'keys', 'values', 'iter', 'drop', 'deref', 'borrow', 'as_ref', 'debug', 'fmt', 'with_capacity', 'reserve', 'drop_in_place'}
def found(q, v, k, key):
    """v is what table k holds for key"""
    v = nf(v)
    v = strip_deref(bare(v))
    w = v
    if w.op == 'elem' and same(uncast(w.a[1]), key): return any(root(q, x) == k and same(x.a[3][0], w.a[0]) for x in q.events('call') if last(x.a[0]) in ('contains_key', 'get'))
    if w.op == 'fld' and w.a[1] == 'Some.0': w = bare(strip_deref(nf(w.a[0])))
    if not (w.op == 'call' and last(w.a[0]) in ('get', 'index', 'cloned', 'copied')): return False
    if last(w.a[0]) in ('cloned', 'copied'): w = nf(w.a[1][0])
    return any(w is x.a[4] and root(q, x) == k and same(hkey(x.a[3][1]), key) for x in q.events('call') if last(x.a[0]) in ('get', 'index'))
def missing(q, k, key):
    """key is not in table k"""
    c = False
    for x in q.events('call'):
        if root(q, x) != k or len(x.a[3]) < 2 or not same(hkey(x.a[3][1]), key): continue
        if last(x.a[0]) == 'get': c = B.OR(c, B.NOT(is_some(q, x.a[4])))
        if last(x.a[0]) == 'contains_key': c = B.OR(c, B.OR(q.formula(V.eq(x.a[4], const(0))), B.NOT(q.formula(x.a[4]))))
    return c
def open_(q, v, cond, stop, depth=14):
    v = nf(v)
    cs = q.cases(v) if v.op == 'phi' and depth and not stop(v) else None
    if not cs: return [(cond, v)] if not unsat(cond) else []
    return [z for g, y in cs if not unsat(B.AND(cond, g)) for z in open_(q, y, B.AND(cond, g), stop, depth - 1)]
def uses(q, v, cond=True, stop=lambda v: False):
    """the cases of an optional value -> [(condition, payload or None)]"""
    out = []
    for c, x in top(q, v, cond):
        if unsat(c): continue
        if x.op == 'agg' and x.a[2] == 'None': out.append((c, None))
        elif x.op == 'agg' and x.a[2] == 'Some': out += open_(q, x.a[4][0], c, stop)
        else:
            n = q.formula(V.eq(V.discr(x, OPT), const(FL.discr_of(OPT, 'None'))))
            if not unsat(B.AND(c, n)): out.append((B.AND(c, n), None))
            if not unsat(B.AND(c, B.NOT(n))): out += open_(q, fld(x, 'Some.0'), B.AND(c, B.NOT(n)), stop)
    return out
def known(q, k, info):
    """values that need not be taken apart any further"""
    vals = [uncast(e.a[3][2]) for e in info[1]]
    return lambda v: any(same(uncast(v), x) for x in vals)
# ---------------------------------------------------------------- sending
def sending(P, R, q, label, assets):
    ts = tables(q, True)
    out = {}
    for k, (kind, us) in ts.items():
        ins = []
        for nm, i, e in us:
            if i == 0 and nm == 'insert' and 'HashMap' in strip_gen(e.a[0]): ins.append(e)
            elif nm in READ and i == 0 or nm in CONV.values(): pass
            else: R.fail(R_SEND, '%s %s table' % (label, kind), 'the table of %s indices is also changed by %s' % (kind, nm))
        lists = {}
        for e in ins:
            w = '%s %s' % (label, kind)
            key, val = hkey(e.a[3][1]), uncast(e.a[3][2])
            st = [x for x in q.events('store') if isinstance(x.a[0], tuple) and x.a[0][-1] == '[]' and x.a[1] and same(x.a[1][-1], val)]
            st = [x for x in st if conversion(q, x.a[2], kind) is not None and equiv(q.facts(x.blk), q.facts(e.blk)) and q.loop(x.blk) == q.loop(e.blk)]
            if not R.check(len(st) == 1, R_SEND, w + ' entry', 'the index noted for a %s (%s) is not the position of an item sent at the same time' % (kind, shown(val)[:60])): continue
            s = st[0]; lists.setdefault(s.a[0][:-1], []).append((e, s))
            src = conversion(q, s.a[2], kind)
            R.check(src is not None and same(hkey(src), key), R_SEND, w + ' asset', 'the index of %s is noted for %s' % (shown(src)[:60] if src is not None else 'another asset', shown(key)[:60]))
            R.check(implies(q.facts(e.blk), missing(q, k, key)), R_SEND, w + ' once', 'a %s is sent although it has been sent before' % kind)
        out[k] = (kind, ins, lists)
        if not ins and any(nm in CONV.values() for nm, i, e in us): continue
        R.check(len(lists) == 1, R_LIST, '%s %s list' % (label, kind), 'the %s indices count %d lists' % (kind, len(lists)))
        for L, prs in lists.items():
            ps, oth = pushes(q, L)
            R.check(not oth, R_LIST, '%s %s list changes' % (label, kind), 'the list of %ss is also changed otherwise' % kind)
            R.check({id(p.ev) if hasattr(p, 'ev') else (p.blk, p.val) for p in ps} == {id(s) if hasattr(ps[0], 'ev') else (s.blk, s.a[2]) for e, s in prs}, R_LIST, '%s %s list items' % (label, kind), 'an item is sent that no index stands for')
    return out
def conversion(q, v, kind):
    """the handle whose asset v is converted from"""
    v = nf(v)
    if v.op == 'fld' and v.a[1] == 'Ok.0': v = nf(v.a[0])
    if not call_is(v, CONV[kind]): return None
    g = bare(strip_deref(v.a[1][0]))
    if g.op == 'fld' and g.a[1] == 'Some.0': g = nf(g.a[0])
    while g.op == 'call' and last(g.a[0]) in ('cloned', 'copied'): g = nf(g.a[1][0])
    if not (call_is(g, 'get') and 'Assets' in g.a[0]): return None
    return g.a[1][1]
def check_use(P, R, q, cond, v, own, k, info, rule, inst, what, lists=None):
    """v, used when cond holds, is what the table says about own"""
    kind, ins, _ = info
    if found(q, v, k, own): R.ok(rule, inst); return
    x = uncast(v) if kind in CONV else nf(v)
    ok = any(same(uncast(e.a[3][2]), uncast(v)) and same(hkey(e.a[3][1]), own) and implies(B.AND(cond, True), q.facts(e.blk)) for e in ins)
    ok = ok or lists is not None and received(q, v, kind, own, lists) is True
    R.check(ok, rule, inst, '%s refers to %s' % (what, shown(v)[:100]))
def run(P, R):
    material_sent(P, R)
    request(P, R)
    material_received(P, R)
    load(P, R)
    R.floor(R_SEND, 10); R.floor(R_USE, 10); R.floor(R_LIST, 5); R.floor(R_LOAD, 10); R.floor(R_SHOW, 10)
def table_of(R, ts, kind, rule, label):
    c = [(k, i) for k, i in ts.items() if i[0] == kind]
    if not R.check(len(c) == 1, rule, '%s %s tables' % (label, kind), 'there are %d tables of %s indices' % (len(c), kind)): return None, None
    return c[0]
def material_sent(P, R):
    f = find1(P, R, 'try_from_standard_material', crate=CR)
    if not f: return
    q = analyse(P, f, {x for x in find(P, 'from_image')}, foreign=True)
    ts = sending(P, R, q, 'material', None)
    k, info = table_of(R, ts, 'Image', R_SEND, 'material')
    if k is None: return
    pr = lambda i: ('O', mk('param', q.g.uid, i))
    R.check(k == (pr(2),) or k[0] == pr(2), R_LIST, 'material table', 'the image table is not the one handed in')
    for L in info[2]: R.check(L[0] == pr(4), R_LIST, 'material images', 'images are not appended to the list handed in')
    seen = 0
    for c, v, e in results(q, 'Ok'):
        if v.op != 'agg': R.fail(R_USE, 'material', 'a material is sent as %s' % shown(v)[:60]); continue
        for n, x in zip(v.a[3], v.a[4]):
            if not n.endswith('texture') and n != 'depth_map': continue
            own = nf(fld(fld(mk('param', q.g.uid, 1), n), 'Some.0')); seen += 1
            us = uses(q, x, c, known(q, k, info))
            for c2, y in us:
                if y is None:
                    R.check(implies(c2, B.NOT(is_some(q, fld(mk('param', q.g.uid, 1), n)))), R_USE, n, 'the %s of a material is not sent' % n)
                    continue
                check_use(P, R, q, c2, y, own, k, info, R_USE, n, 'the %s of a material' % n)
            R.check(any(y is not None for c2, y in us), R_USE, n + ' sent', 'the %s of a material is never sent' % n)
    R.check(seen >= 6, R_USE, 'textures', 'only %d texture slots of a material are sent' % seen)
def fresh(q, k):
    """list or table k is empty to begin with: the values it has before the first loop"""
    out = []
    for h in q.loops:
        for p in q.header_phis(h):
            if p.a[1] == k:
                en, bk = q.entry_args(p); out += [nf(y) for y in en if not (nf(y).op == 'phi' and nf(y).a[1] == k)]
    return out
def starts_empty(q, k):
    vs = fresh(q, k)
    return bool(vs) and all(y.op == 'call' and last(y.a[0]) in ('new', 'default', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher') or empty(y) for y in vs)
def list_empty(q, L):
    n = L + ('#len',)
    vs = fresh(q, n) or fresh(q, L)
    return bool(vs) and all(y is const(0) or same(y, const(0)) or y.op in ('vec0',) or call_is(y, 'new', 'default', 'with_capacity') or empty(y) for y in vs)
def request(P, R):
    f = find1(P, R, 'get_navmesh_input', crate=CR)
    if not f: return
    q = analyse(P, f, ops(P), foreign=True)
    ts = sending(P, R, q, 'response', None)
    se = [e for e in q.events('call') if last(e.a[0]) == 'serialize' and CR in e.a[0]]
    if not R.check(len(se) == 1, R_LIST, 'response', 'the response is serialised at %d places' % len(se)): return
    resp = nf(se[0].a[3][0])
    if not R.check(resp.op == 'agg' and (resp.a[1] or '').endswith('NavmeshInputResponse'), R_LIST, 'response', 'what is serialised is %s' % shown(resp)[:80]): return
    T = {}
    for kind, field in (('Mesh', 'meshes'), ('StandardMaterial', 'materials'), ('Image', 'images')):
        k, info = table_of(R, ts, kind, R_SEND, 'response')
        if k is None: return
        T[kind] = (k, info)
        R.check(starts_empty(q, k), R_LIST, kind + ' table', 'the table of %s indices does not start empty' % kind)
        if kind == 'Image':
            cs = [e for e in q.events('call') if last(e.a[0]) == CONV['StandardMaterial']]
            L = None
            for e in cs:
                t, l = nf(e.a[2][1]), nf(e.a[2][3])
                R.check(t.op == 'ref' and tuple(t.a[0]) == k and l.op == 'ref', R_LIST, 'images handed on', 'a material is converted with other tables')
                L = tuple(l.a[0]) if l.op == 'ref' else None
            if not R.check(cs and L, R_LIST, 'images', 'no image is ever sent'): continue
            ls = [L]
        else: ls = list(info[2])
        for L in ls:
            others = [last(e.a[0]) for e in q.events('call') for i, v in enumerate(e.a[2]) if nf(v).op == 'ref' and tuple(nf(v).a[0])[:len(L)] == L and last(e.a[0]) not in READ | {CONV['StandardMaterial'], 'serialize', 'as_slice'}]
            R.check(not others, R_LIST, field + ' changes', 'the list of %s is also changed by %s' % (field, ', '.join(others)))
            R.check(list_empty(q, L), R_LIST, field + ' start', 'the list of %s does not start empty' % field)
            v = nf(fld(resp, field))
            ks = {x.a[1] for x in [v] + list(walk_nodes(v)) if x.op == 'phi'}
            R.check(v.op != 'after' and any(x[:len(L)] == L for x in ks), R_LIST, field, 'the response\'s %s are %s' % (field, shown(v)[:80]))
    # the visuals
    v = fld(resp, 'visual_meshes')
    ph = {x for x in walk_nodes(nf(v)) if x.op == 'phi' and '[]' in x.a[1] and x.a[0] in q.loops and x.a[2] == q.g.uid}
    if not R.check(len(ph) == 1, R_USE, 'visuals', 'how the visuals are gathered is not understood: %s' % shown(nf(v))[:80]): return
    p = ph.pop(); h = p.a[0]
    ps, oth = pushes(q, p.a[1][:p.a[1].index('[]')])
    item, src, why, *some = query_loop(q, h)
    if not R.check(item is not None, R_USE, 'visuals', 'how the visuals are gathered is not understood: %s' % why): return
    qs = [e for e in q.events('call') if last(e.a[0]) in ('query', 'query_filtered') and any(y is e.a[4] for y in walk_nodes(src))]
    data = qs[0].a[1].get('gargs', [''])[0] if qs else ''
    names = [show_ty(x) for x in parse_ty(data)[1:]] if data.startswith('(') else []
    pos = {n: i for i, t in enumerate(names) for n in ('Mesh3d', 'MeshMaterial3d') if n in t}
    if not R.check(len(pos) == 2, R_USE, 'handles', 'the meshes and materials of the entities are not looked at'): return
    mesh = fld(item, str(pos['Mesh3d'])); mat = fld(item, str(pos['MeshMaterial3d']))
    for z in ps:
        cond = B.AND(q.facts(z.blk), True)
        for c, y in open_(q, fld(z.val, 'mesh'), cond, known(q, *T['Mesh'])):
            check_use(P, R, q, c, y, hkey(mesh), T['Mesh'][0], T['Mesh'][1], R_USE, 'mesh', 'an entity sent')
        got = False; own = hkey(fld(mat, 'Some.0'))
        nothing = B.NOT(is_some(q, mat))
        for e in q.events('call'):
            if last(e.a[0]) == 'get' and 'Assets' in e.a[0] and same(hkey(e.a[3][1]), own): nothing = B.OR(nothing, B.NOT(is_some(q, e.a[4])))
            if last(e.a[0]) == CONV['StandardMaterial']: nothing = B.OR(nothing, B.NOT(q.formula(V.eq(V.discr(e.a[4], 'core::result::Result'), const(FL.discr_of('core::result::Result', 'Ok'))))))
        for c, y in uses(q, fld(z.val, 'material'), cond, known(q, *T['StandardMaterial'])):
            if y is None:
                R.check(implies(c, nothing), R_USE, 'material left out', 'an entity is sent without its material'); continue
            got = True
            check_use(P, R, q, c, y, own, T['StandardMaterial'][0], T['StandardMaterial'][1], R_USE, 'material', 'an entity sent')
        R.check(got, R_USE, 'material sent', 'materials are never sent')
# ---------------------------------------------------------------- receiving
def receiving(P, R, q, label, lists):
    ts = tables(q, False); out = {}
    for k, (kind, us) in ts.items():
        w = '%s %s' % (label, kind); ins = []
        for nm, i, e in us:
            if i == 0 and nm == 'insert' and 'HashMap' in strip_gen(e.a[0]): ins.append(e)
            elif nm in READ and i == 0 or nm in BACK.values(): pass
            else: R.fail(R_LOAD, w + ' table', 'the table of %s handles is also changed by %s' % (kind, nm))
        for e in ins:
            key = hkey(e.a[3][1])
            src = received(q, e.a[3][2], kind, key, lists)
            R.check(src is True, R_LOAD, w + ' entry', 'index %s is taken to stand for %s' % (shown(key)[:60], src))
            R.check(implies(q.facts(e.blk), missing(q, k, key)), R_LOAD, w + ' once', 'the %s of an index is replaced' % kind)
        out[k] = (kind, ins, {})
    return out
def received(q, v, kind, key, lists):
    """v is the handle of the added conversion of the item with index key of the right list"""
    v = bare(v)
    if not (call_is(v, 'add') and 'Assets' in v.a[0]): return shown(v)[:80]
    x = bare(v.a[1][1])
    if not call_is(x, BACK[kind]): return shown(x)[:80]
    it = bare(strip_deref(x.a[1][0]))
    want = lists.get(kind)
    if it.op == 'fld' and it.a[1] == 'Some.0' and call_is(nf(it.a[0]), 'get'):
        g = nf(it.a[0]); return same(strip_deref(g.a[1][0]), want) and same(uncast(g.a[1][1]), key) or shown(it)[:80]
    if it.op in ('elem', 'sel') and want is not None and same(strip_deref(it.a[0]), strip_deref(want)) and same(uncast(it.a[1]), key): return True
    if it.op == 'elem' and want is not None and same(it, V.elem(want, key)): return True
    return shown(it)[:80]
def outside(q, key, lst):
    """the index is past the end of the list"""
    n = fld(lst, '#len')
    return B.NOT(q.formula(mk('lt', key, n)))
def material_received(P, R):
    f = find1(P, R, 'into_standard_material', crate=CR)
    if not f: return
    q = analyse(P, f, {x for x in find(P, 'into_image')}, foreign=True)
    pr = lambda i: mk('param', q.g.uid, i)
    imgs = mk('deref', pr(4))
    ts = receiving(P, R, q, 'material', {'Image': imgs})
    k, info = table_of(R, ts, 'Image', R_LOAD, 'material')
    if k is None: return
    R.check(k[0] == ('O', pr(2)), R_LOAD, 'material table', 'the image table is not the one handed in')
    seen = 0
    for c, v, e in results(q):
        if v.op != 'agg': R.fail(R_SHOW, 'material', 'a material is received as %s' % shown(v)[:60]); continue
        for n, x in zip(v.a[3], v.a[4]):
            if not n.endswith('texture') and n != 'depth_map': continue
            seen += 1
            src = fld(pr(1), n); own = nf(fld(src, 'Some.0')); got = False
            for c2, y in uses(q, x, c, known(q, k, info)):
                if y is None:
                    R.check(implies(B.AND(c2, is_some(q, src)), outside(q, own, imgs)), R_SHOW, n + ' left out', 'the %s of a material is lost' % n); continue
                got = True
                check_use(P, R, q, c2, y, own, k, info, R_SHOW, n, 'the %s of a material' % n, {'Image': imgs})
            R.check(got, R_SHOW, n + ' used', 'the %s of a received material is never used' % n)
    R.check(seen >= 6, R_SHOW, 'textures', 'only %d texture slots of a material are received' % seen)
def load(P, R):
    ed = [b for b in P.all if b['crate'] == 'bevy_rerecast_editor' and last(b['path']) == 'fetch_navmesh_input']
    if not R.check(len(ed) == 1, R_LOAD, 'editor', 'the handler that loads a scene is gone'): return
    q = analyse(P, ed[0]['path'], {b2['path'] for b2 in P.all if b2['crate'] not in ('bevy_rerecast_editor', 'models') and b2['kind'] != 'closure' and '{closure' not in b2['path']}, foreign=True)
    de = [e for e in q.events('call') if last(e.a[0]) == 'deserialize' and CR in e.a[0]]
    if not R.check(len(de) == 1, R_LOAD, 'response', 'a response is decoded at %d places' % len(de)): return
    resp = fld(de[0].a[4], 'Ok.0')
    lists = {'Mesh': fld(resp, 'meshes'), 'StandardMaterial': fld(resp, 'materials'), 'Image': fld(resp, 'images')}
    ts = receiving(P, R, q, 'editor', lists)
    T = {}
    for kind in ('Mesh', 'StandardMaterial', 'Image'):
        k, info = table_of(R, ts, kind, R_LOAD, 'editor')
        if k is None: return
        T[kind] = (k, info)
        new_ = kind == 'Image' and all(call_is(nf(e.a[3][1]), 'new', 'default') for e in q.events('call') if last(e.a[0]) == BACK['StandardMaterial'])
        R.check(starts_empty(q, k) or new_, R_LOAD, kind + ' table', 'the table of received %ss does not start empty' % kind)
    for e in q.events('call'):
        if last(e.a[0]) == BACK['StandardMaterial']:
            t = nf(e.a[2][1])
            R.check(t.op == 'ref' and tuple(t.a[0]) == T['Image'][0], R_LOAD, 'material images table', 'a material is converted with another image table')
            R.check(same(unslice(e.a[3][3]), lists['Image']), R_LOAD, 'material images', 'a material is converted with the images %s' % shown(e.a[3][3])[:60])
    # the entities
    vis = fld(resp, 'visual_meshes'); n = 0
    for e in q.events('call'):
        if last(e.a[0]) != 'spawn' or 'Commands' not in e.a[0]: continue
        b = nf(e.a[3][1])
        els = [nf(y) for y in b.a[4]] if b.op == 'agg' else []
        comp = {last(y.a[1] or ''): y for y in els if y.op == 'agg'}
        if 'MeshMaterial3d' not in comp and 'Mesh3d' not in comp: continue
        its = {x for y in els for x in walk_nodes(y) if x.op == 'elem' and same(x.a[0], vis)}
        if 'MeshMaterial3d' not in comp and not its: continue          # an obstacle
        n += 1
        h = q.loop(e.blk)
        trans = [y for y in els if call_is(y, 'compute_transform') or y.op == 'call' and 'ransform' in y.a[0] or y.op == 'agg' and last(y.a[1] or '').endswith('Transform')]
        its = {x for y in trans for x in [y] + list(walk_nodes(y)) if x.op == 'elem' and same(x.a[0], vis)}
        if not R.check(len(its) == 1, R_SHOW, 'transform', 'a received entity is placed by %s' % [shown(y)[:60] for y in trans]): continue
        it = its.pop()
        for t in trans: R.check(any(same(y, fld(it, 'transform')) for y in [t] + list(walk_nodes(t))), R_SHOW, 'transform', 'a received entity is placed by %s' % shown(t)[:60])
        cond = q.facts(e.blk)
        if 'Mesh3d' in comp:
            for c, y in open_(q, comp['Mesh3d'].a[4][0], cond, known(q, *T['Mesh'])): check_use(P, R, q, c, y, nf(fld(it, 'mesh')), T['Mesh'][0], T['Mesh'][1], R_SHOW, 'mesh', 'a received entity', lists)
        else: R.fail(R_SHOW, 'mesh', 'a received entity has no mesh')
        m = fld(it, 'material'); own = nf(fld(m, 'Some.0')); got = False
        if not R.check('MeshMaterial3d' in comp, R_SHOW, 'material', 'a received entity has no material'): continue
        for c, y in open_(q, comp['MeshMaterial3d'].a[4][0], cond, known(q, *T['StandardMaterial'])):
            if not implies(c, is_some(q, m)) or unsat(B.AND(c, B.NOT(outside(q, own, lists['StandardMaterial'])))):
                R.check(implies(B.AND(c, is_some(q, m)), outside(q, own, lists['StandardMaterial'])), R_SHOW, 'material', 'a received entity does not get its material but %s' % shown(y)[:60])
                R.check(not any(z.op == 'call' and last(z.a[0]) in ('get', 'index') and any(same(z, x.a[4]) for x in q.events('call') if root(q, x) in ts) for z in [y] + list(walk_nodes(y))), R_SHOW, 'no material', 'an entity without a material gets another one\'s')
                continue
            got = True
            check_use(P, R, q, c, y, own, T['StandardMaterial'][0], T['StandardMaterial'][1], R_SHOW, 'material', 'a received entity', lists)
        R.check(got, R_SHOW, 'material used', 'received materials are never used')
        # left out only if its mesh index means nothing
        if not R.check(h is not None, R_SHOW, 'left out', 'received entities are not spawned one by one'): continue
        pos, first, bound, why = passes(q, h)
        R.check(why is None and same(first, const(0)) and same(bound, fld(vis, '#len')), R_SHOW, 'all looked at', 'not every received entity is looked at: %s' % why)
        lost = False
        for p in q.latches(h): lost = B.OR(lost, B.AND(q.guard(p, h), q.edge(p, h)))
        R.check(implies(B.AND(lost, B.NOT(q.guard(e.blk, h))), outside(q, nf(fld(it, 'mesh')), lists['Mesh'])), R_SHOW, 'left out', 'a received entity is left out')
    R.check(n == 1, R_SHOW, 'entities', 'the visuals received are spawned at %d places' % n)
def unslice(v):
    v = strip_deref(v)
    while v.op == 'slice' and same(v.a[1], const(0)) and same(v.a[2], fld(v.a[0], '#len')): v = strip_deref(v.a[0])
    return v
