from conv import *
from seqs import *
from checks.c19 import is_some
from checks.c26 import last
import re, itertools
EXPLAIN = ("The calls that put the editor together (checkboxes, buttons, observers, systems with their run conditions, plugins) are read from value graphs of the functions that make them; run conditions are turned into truth tables, "
           "closures included, and compared with what showing and hiding a layer needs; the entities a system acts on are read from the filter in its type.")
R_BOX = 'every layer has a checkbox that toggles exactly it'
R_TOG = 'toggling a layer switches it on when off and off when on'
R_SHOW = 'a layer is shown when it is switched on, and only then'
R_HIDE = 'a layer is hidden when it is switched off, and only then'
R_EVT = 'every event raised has a handler, and every handler an event that is raised'
R_BTN = 'a click on a button or checkbox runs its action'
R_PLUG = 'every part of the editor is installed'
ED = 'bevy_rerecast_editor'
LAYERS = ED + '::visualization::AvailableGizmos'
def closure_of(v):
    for y in [nf(v)] + list(walk_nodes(nf(v))):
        if y.op == 'agg' and y.a[0] == 'closure': return y
    return None
def body_of(P, y):
    for p in (y.a[1],):
        if p in P.bodies: return p
    return None
def layer_in(v):
    out = set()
    for y in [nf(v)] + list(walk_nodes(nf(v))):
        if y.op == 'agg' and (y.a[1] or '') == LAYERS: out.add(y.a[2])
    return out
# ---------------------------------------------------------------- conditions
class Cond:
    def __init__(self, f, atoms): self.f, self.atoms = f, frozenset(atoms)
def cond_of(P, R, q, v, tys):
    """truth of a run condition over ('exists', T), ('changed', T), ('on', layer)"""
    v = nf(v)
    if v.op == 'fnptr':
        n = last(v.a[0]); t = tys.get(v) or ''
        m = re.findall(r'%s::<([^<>]*)>' % n, t)
        if n in ('resource_exists', 'resource_changed', 'resource_exists_and_changed', 'resource_added') and m:
            T = m[-1]
            if n == 'resource_exists': return Cond(lambda e: e[('exists', T)], [('exists', T)])
            if n == 'resource_changed': return Cond(lambda e: e[('changed', T)], [('changed', T)])
            if n == 'resource_exists_and_changed': return Cond(lambda e: e[('exists', T)] and e[('changed', T)], [('exists', T), ('changed', T)])
        if v.a[0] in P.bodies: return from_body(P, R, v.a[0], None)
        return None
    if v.op == 'call':
        n = last(v.a[0]); a = v.a[1]
        ev = [e for e in q.events('call') if e.a[4] is v]
        if ev:
            for x, t in zip(a, ev[0].a[1].get('_aty') or []): tys[nf(x)] = show_ty(t)
            for x, t in zip(a, ev[0].a[1].get('gargs', [])):
                if nf(x).op == 'fnptr' and last(nf(x).a[0]) in t: tys[nf(x)] = t
        if n in ('and', 'or', 'nand', 'nor', 'xor', 'xnor', 'and_then', 'or_else') and len(a) == 2:
            l, r = cond_of(P, R, q, a[0], tys), cond_of(P, R, q, a[1], tys)
            if l is None or r is None: return None
            g = {'and': lambda x, y: x and y, 'and_then': lambda x, y: x and y, 'or': lambda x, y: x or y, 'or_else': lambda x, y: x or y, 'nand': lambda x, y: not (x and y), 'nor': lambda x, y: not (x or y), 'xor': lambda x, y: x != y, 'xnor': lambda x, y: x == y}[n]
            return Cond(lambda e: g(l.f(e), r.f(e)), l.atoms | r.atoms)
        if n == 'not' and len(a) == 1:
            l = cond_of(P, R, q, a[0], tys)
            return l and Cond(lambda e: not l.f(e), l.atoms)
        if n in ('into_system', 'new', 'clone') and len(a) >= 1: return cond_of(P, R, q, a[0], tys)
    if v.op == 'agg' and v.a[0] == 'closure': return from_body(P, R, v.a[1], v)
    return None
def from_body(P, R, path, clo):
    if path not in P.bodies: return None
    b = P.bodies[path]; q = analyse(P, path)
    tr = {}
    for e in q.events('call'):
        n = last(e.a[0]); t = ' '.join(show_ty(x) for x in e.a[1].get('_aty') or [])
        if n in ('is_changed', 'is_added') and 'GizmosToDraw' in t and n == 'is_changed': tr[e.a[4]] = ('changed', ED + '::visualization::GizmosToDraw')
        elif n == 'contains':
            ls = layer_in(e.a[3][1])
            if not ls and clo is not None:
                k = nf(e.a[3][1])
                while k.op == 'deref': k = nf(k.a[0])
                if k.op == 'fld' and k.a[1].isdigit() and any(z.op == 'param' and z.a[1] == 1 for z in walk_nodes(k)): ls = layer_in(clo.a[4][int(k.a[1])])
            if len(ls) != 1: return None
            tr[e.a[4]] = ('on', ls.pop())
        elif n in ('deref', 'borrow', 'as_ref'): pass
        else: return None
    f = False
    for c, v, e in results(q):
        t = q.formula(v)
        f = B.OR(f, B.AND(c, t))
    sup = {}
    for a in (B.support(f) if not isinstance(f, bool) else []):
        hit = None
        for n, k in tr.items():
            if q.formula(n) is not None and equiv(B.var(a) if not isinstance(a, tuple) else B.var(a), q.formula(n)): hit = (k, True)
            elif equiv(B.var(a), q.formula(V.eq(n, const(0)))): hit = (k, False)
        if hit is None: return None
        sup[a] = hit
    def ev(env, f=f):
        for a, (k, pos) in sup.items():
            if isinstance(f, bool): break
            f = B.restrict(f, {a: env[k] == pos})
        return bool(f)
    return Cond(ev, [k for k, p in sup.values()])
def all_envs(atoms):
    atoms = sorted(atoms)
    for bits in itertools.product((False, True), repeat=len(atoms)): yield dict(zip(atoms, bits))
# ---------------------------------------------------------------- what the app is made of
class Made: pass
def made(P, R):
    m = Made(); m.calls = []
    m.widgets = {b['path'] for b in P.all if b['crate'] == ED and '::theme::' in b['path'] and b['kind'] == 'fn'}
    for b in user_bodies(P, [ED]):
        if b['kind'] not in ('fn', 'assocfn', 'closure') or '::theme::' in b['path'] and b['kind'] == 'closure': continue
        q = analyse(P, b['path'], m.widgets - {b['path']}, foreign=True)
        for e in q.events('call'): m.calls.append((b, q, e))
    return m
def fns(v): return {y.a[0] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op == 'fnptr'}
def own(e): return e.org[0] if e.org else None
def run(P, R):
    m = made(P, R)
    adt = P.adts.get(LAYERS)
    if not R.check(adt is not None, R_BOX, 'layers', 'the list of layers is gone'): return
    layers = [v['name'] if isinstance(v, dict) else v[0] for v in adt['variants']]
    R.note('layers', layers)
    boxes(P, R, m, layers)
    systems(P, R, m, layers)
    events_(P, R, m)
    widgets(P, R, m)
    plugins(P, R, m)
    R.floor(R_BOX, 4); R.floor(R_TOG, 2); R.floor(R_SHOW, 4); R.floor(R_HIDE, 4); R.floor(R_EVT, 3); R.floor(R_PLUG, 5)
def dedup(cs):
    """a call inlined into several callers counts where it is not inlined any further"""
    seen = {}
    for b, q, e in cs: seen.setdefault(tuple(e.org) if e.org else id(e), []).append((b, q, e))
    return seen
def boxes(P, R, m, layers):
    cs = [(b, q, e) for b, q, e in m.calls if last(e.a[0]) == 'checkbox']
    got = {}
    for b, q, e in cs:
        c = closure_of(e.a[3][1])
        # a helper that is handed the layer: what it makes is judged where it is called
        if c is not None and c.a[4] and not layer_in(c) and any(z.op == 'param' and z.a[0] == q.g.uid for z in walk_nodes(c)) \
           and any(x is not q and tuple(y.org or ()) == tuple(e.org or (None,)) for _, x, y in cs): continue
        if c is None or body_of(P, c) is None: R.fail(R_BOX, 'action', 'what a checkbox does is not understood: %s' % shown(e.a[3][1])[:80]); continue
        for cl in toggles(P, R, c): got.setdefault(cl, []).append((b, q, e))
    for l in layers:
        xs = got.get(l, [])
        sites = {(b['path'], e.blk, e.a[4]) for b, q, e in xs}
        if R.check(len(xs) >= 1, R_BOX, l, 'there is no checkbox for the layer %s' % l):
            R.check(all(always(q, e.blk) for b, q, e in xs), R_BOX, l + ' always', 'the checkbox for %s is only there sometimes' % l)
            for b, q, e in xs:
                lab = ''.join(str(y.a[0]) for y in [nf(e.a[3][0])] + list(walk_nodes(nf(e.a[3][0]))) if y.op in ('str', 'const', 'lit')).lower() or shown(e.a[3][0]).lower()
                other = [k for k in layers if k != l and k.lower()[:4] in lab]
                R.check(not (other and l.lower()[:4] not in lab), R_BOX, l + ' label', 'the checkbox labelled %s toggles %s' % (lab, l))
def toggles(P, R, c):
    """layers a closure toggles; checks that toggling is right"""
    q = analyse(P, c.a[1]); out = []
    ev = [e for e in q.events('call') if 'HashSet' in strip_gen(e.a[0]) or last(e.a[0]) in ('insert', 'remove', 'contains', 'toggle')]
    co = [e for e in ev if last(e.a[0]) == 'contains']; rm = [e for e in ev if last(e.a[0]) == 'remove']; ins = [e for e in ev if last(e.a[0]) == 'insert']
    def layer(k):
        ls = layer_in(k)
        if ls: return ls.pop() if len(ls) == 1 else None
        k = nf(k)
        while k.op == 'deref': k = nf(k.a[0])
        if k.op == 'fld' and k.a[1].isdigit():
            ls = layer_in(c.a[4][int(k.a[1])]); return ls.pop() if len(ls) == 1 else None
    if not ins or not rm: R.fail(R_TOG, 'toggle', 'a checkbox does not toggle its layer'); return out
    for e in ins + rm:
        l = layer(e.a[3][1])
        if l is None: R.fail(R_TOG, 'layer', 'a checkbox switches %s' % shown(e.a[3][1])[:60]); continue
        if l not in out: out.append(l)
    keys = {layer(e.a[3][1]) for e in co + ins + rm}
    R.check(len(keys) == 1, R_TOG, 'same', 'a checkbox looks at another layer than it switches')
    on = False
    for e in co: on = B.OR(on, q.formula(e.a[4]))
    offs = B.NOT(q.formula(V.eq(co[0].a[4], const(0)))) if co else None
    # remove returns whether it was there: `if !set.remove(x) { set.insert(x) }`
    had = rm[0].a[4]
    i = ins[0]; r = rm[0]
    ok = False
    for p in [q.formula(e.a[4]) for e in co] + [B.NOT(q.formula(V.eq(e.a[4], const(0)))) for e in co]:
        ok = ok or equiv(q.facts(i.blk), B.NOT(p)) and equiv(q.facts(r.blk), p)
    for p in (q.formula(had), B.NOT(q.formula(V.eq(had, const(0))))):
        ok = ok or equiv(q.facts(i.blk), B.NOT(p)) and always(q, r.blk)
    for p in (q.formula(i.a[4]), B.NOT(q.formula(V.eq(i.a[4], const(0))))):
        ok = ok or equiv(q.facts(r.blk), B.NOT(p)) and always(q, i.blk)
    R.check(ok and len(ins) == 1 and len(rm) == 1, R_TOG, out[0] if out else 'layer', 'switching a layer does not turn it on exactly when it is off')
    return out
def systems(P, R, m, layers):
    """run_if pairs of everything scheduled"""
    sched = []
    for b, q, e in m.calls:
        if last(e.a[0]) != 'add_systems' or b['kind'] == 'closure': continue
        sn = nf(e.a[3][1]); sn = last(sn.a[1] or '') if sn.op == 'agg' else shown(sn)
        def go(v, conds):
            v = nf(v)
            if v.op == 'agg' and v.a[0] in ('tuple', 'arr'):
                for y in v.a[4]: go(y, conds)
            elif v.op == 'call' and last(v.a[0]) in ('run_if', 'distributive_run_if'): go(v.a[1][0], conds + [(v, v.a[1][1])])
            elif v.op == 'call' and last(v.a[0]) in ('chain', 'after', 'before', 'in_set', 'into_configs', 'ambiguous_with', 'into_system', 'chain_ignore_deferred'): go(v.a[1][0], conds)
            elif v.op == 'fnptr': sched.append((b, q, e, v.a[0], conds, sn))
        go(e.a[3][2], [])
    marker = {}
    for l in layers: marker[l] = l
    G = ('changed', ED + '::visualization::GizmosToDraw')
    show, hide = {}, {}
    for b, q, e, sysn, conds, sn in sched:
        if sysn not in P.bodies: continue
        sb = P.bodies[sysn]
        tys = ' '.join(l[0] for l in sb['locals'][1:sb['argc'] + 1])
        mine = [l for l in layers for t in set(re.findall(r'With<([^<>]*)>', tys)) if l in last(t)]
        kind = effect(P, sysn)
        if not mine or kind is None: continue
        R.check(len(set(mine)) == 1, R_SHOW, sysn.split('::')[-1] + ' entities', '%s acts on the entities of %s' % (last(sysn), ', '.join(sorted(set(mine)))))
        l = mine[0]
        if sn == 'Startup' and not conds: continue
        rule = R_SHOW if kind[0] == 'show' else R_HIDE
        (show if kind[0] == 'show' else hide).setdefault(l, []).append(sysn)
        R.check(kind[1] is None, rule, l + ' effect', '%s %s' % (last(sysn), kind[1]))
        R.check(sn in ('Update', 'PreUpdate', 'PostUpdate') and always(q, e.blk), rule, l + ' schedule', '%s is run in %s' % (last(sysn), sn))
        cs = []
        for rv, c in conds:
            tys_ = {}
            for e2 in q.events('call'):
                if e2.a[4] is rv:
                    for x, t in zip(rv.a[1], e2.a[1].get('_aty') or []): tys_[nf(x)] = show_ty(t)
            cs.append(cond_of(P, R, q, c, tys_))
        if any(c is None for c in cs): R.fail(rule, l + ' condition', 'when %s runs is not understood' % last(sysn)); continue
        atoms = {('on', l), G} | {a for c in cs for a in c.atoms}
        nav = re.findall(r"Res<'?[^,<>]*,? ?([A-Za-z_:]*::Navmesh)>", tys)
        N = nav[0] if nav else None
        if N: atoms |= {('exists', N), ('changed', N)}
        bad = None
        for env in all_envs(atoms):
            if N and env[('changed', N)] and not env[('exists', N)]: continue
            r = all(c.f(env) for c in cs); on = env[('on', l)]
            if kind[0] == 'show':
                need = on and (env[G] or N and env[('changed', N)]) and (not N or env[('exists', N)])
                if need and not r: bad = 'does not run when the layer %s' % ('is switched on' if env[G] else 'is on and a navmesh has been built')
                if r and not on: bad = 'runs although the layer is switched off'
                if r and N and not env[('exists', N)]: bad = 'runs although there is no navmesh'
            else:
                if env[G] and not on and not r: bad = 'does not run when the layer is switched off'
                if r and on: bad = 'runs although the layer is switched on'
        R.check(bad is None, rule, l, '%s %s' % (last(sysn), bad))
    for l in layers:
        R.check(len(show.get(l, [])) >= 1, R_SHOW, l + ' system', 'nothing shows the layer %s' % l)
        R.check(len(hide.get(l, [])) >= 1, R_HIDE, l + ' system', 'nothing hides the layer %s' % l)
def effect(P, path):
    """('show' or 'hide', what is wrong) of a system, None if it does neither"""
    q = analyse(P, path, foreign=True)
    vis, hid, clr, drw = [], [], [], []
    for e in q.events('store'):
        v = nf(e.a[2])
        if isinstance(e.a[0], tuple) and e.a[0][-1] == '*' and v.op == 'agg' and (v.a[1] or '').endswith('::Visibility'):
            (hid if v.a[2] == 'Hidden' else vis).append(e)
    for e in q.events('call'):
        n = last(e.a[0])
        if n == 'clear' and 'Gizmo' in e.a[0]: clr.append(e)
        if n in ('linestrip', 'lineloop', 'line', 'linestrip_gradient'): drw.append(e)
        if n in ('insert', 'set_if_neq') and any('Visibility' in g for g in e.a[1].get('gargs', [])):
            vs = {y.a[2] for v in e.a[3] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op == 'agg' and (y.a[1] or '').endswith('::Visibility')}
            if vs == {'Hidden'}: hid.append(e)
            elif vs: vis.append(e)
    if not (vis or hid or clr or drw): return None
    kind = 'show' if vis or drw else 'hide'
    bad = None
    tys = ' '.join(l[0] for l in P.bodies[path]['locals'][1:P.bodies[path]['argc'] + 1])
    if vis and hid: bad = 'both shows and hides'
    mut = 'mut bevy_render::view::visibility::Visibility' in tys
    if kind == 'show' and mut and not any(reached(q, e) for e in vis): bad = 'does not always make its entity visible'
    if kind == 'hide' and mut and not any(reached(q, e) for e in hid): bad = 'does not always make its entity invisible'
    if 'GizmoAsset' in tys and not any(reached(q, e) for e in clr): bad = 'does not always remove what was drawn before'
    if kind == 'hide' and drw: bad = 'draws'
    if kind == 'show' and drw and clr:
        for c in clr:
            for d in drw:
                h = q.loop(c.blk)
                if c.blk in q.reach([d.blk], {h} if h is not None else set()) and c.blk != d.blk: bad = 'removes what it has just drawn'
    return kind, bad
def reached(q, e):
    """e is executed (for every entity) unless something it needs does not exist"""
    h = q.loop(e.blk)
    if h is not None:
        item, src, why, *_ = query_loop(q, h, fine=lambda b, s, c: absent(q, c))
        if item is None: return False
        h2 = q.loop(h) if False else None
    c = q.guard(e.blk, h) if h is not None else q.facts(e.blk)
    return absent(q, B.NOT(c), neg=True)
def absent(q, c, neg=False):
    """c only holds when a lookup found nothing"""
    if unsat(c): return True
    lk = []
    for e in q.events('call'):
        if last(e.a[0]) in ('get', 'get_mut', 'next', 'from_mesh'): lk.append(B.NOT(is_some(q, e.a[4])))
    none = False
    for x in lk: none = B.OR(none, x)
    return implies(c, none)
def events_(P, R, m):
    raised, handled = {}, {}
    for b, q, e in m.calls:
        n = last(e.a[0])
        if n in ('trigger', 'trigger_targets'):
            ty = [y.a[1] for v in e.a[3][1:2] for y in [nf(v)] if y.op == 'agg'] or e.a[1].get('gargs', [])[:1]
            for t in ty:
                if (t or '').startswith(ED): raised.setdefault(t, []).append((b, q, e))
        if n == 'add_observer' and b['kind'] != 'closure':
            for h in fns(e.a[3][1]):
                if h not in P.bodies: continue
                hb = P.bodies[h]
                t = re.findall(r"Trigger<'_, ([A-Za-z_:]*)[,>]", ' '.join(l[0] for l in hb['locals'][1:hb['argc'] + 1]))
                for x in t: handled.setdefault(x, []).append((b, q, e, h))
    for t, xs in raised.items():
        hs = handled.get(t, [])
        R.check(any(always(q, e.blk) and appfn(b) for b, q, e, h in hs), R_EVT, last(t), 'nothing handles %s' % last(t))
        roots = {h for b, q, e, h in hs}
        R.check(len(roots) <= 1, R_EVT, last(t) + ' handlers', '%s is handled by %s' % (last(t), ', '.join(sorted(roots))))
        R.check(len({(e2.blk, b2['path']) for b2, q2, e2, h in hs}) <= 1, R_EVT, last(t) + ' installed', 'the handler of %s is installed more than once' % last(t))
    for t in handled:
        if t.startswith(ED): R.check(t in raised, R_EVT, last(t) + ' raised', '%s has a handler but is never raised' % last(t))
    # buttons
    bt = [(b, q, e) for b, q, e in m.calls if last(e.a[0]) in ('button', 'button_small') and '::theme::' not in b['path']]
    acts = {}
    for b, q, e in bt:
        hs = fns(e.a[3][1])
        lab = shown(nf(e.a[3][0])).strip("'\"")
        for h in hs:
            if h not in P.bodies: continue
            qh = analyse(P, h, m.widgets, foreign=True)
            evs = [last(x) for x2 in qh.events('call') if last(x2.a[0]) == 'trigger' and always(qh, x2.blk) for x in ([y.a[1] for y in [nf(x2.a[3][1])] if y.op == 'agg'] or x2.a[1].get('gargs', [])[:1])]
            sp = [x2 for x2 in qh.events('call') if last(x2.a[0]) == 'spawn' and always(qh, x2.blk)]
            acts.setdefault(lab, []).append((h, evs, sp))
            R.check(bool(evs or sp), R_BTN, lab, 'the button %s does nothing' % lab)
            same_ = [last(t) for t in raised if re.sub(r'[^a-z]', '', last(t).lower()) == re.sub(r'[^a-z]', '', lab.lower())]
            if same_: R.check(evs == same_, R_BTN, lab + ' event', 'the button %s raises %s' % (lab, ', '.join(evs) or 'nothing'))
            if lab.lower() == 'load': R.check('GetNavmeshInput' in evs, R_BTN, 'load event', 'the button %s raises %s' % (lab, ', '.join(evs) or 'nothing'))
            if lab.lower() in ('x', 'close', 'cancel'): R.check(evs == ['CloseModal'], R_BTN, 'close event', 'the button %s raises %s' % (lab, ', '.join(evs) or 'nothing'))
    every = {ev for xs in acts.values() for h, evs, sp in xs for ev in evs}
    for t in raised: R.check(last(t) in every, R_EVT, last(t) + ' button', 'no button raises %s' % last(t))
    # the dialog that is opened is the one that is closed
    cl = handled.get(ED + '::ui::CloseModal', [])
    for b, q, e, h in cl:
        qh = analyse(P, h, foreign=True); hb = P.bodies[h]
        mk_ = set(re.findall(r'With<([^<>]*)>', ' '.join(l[0] for l in hb['locals'][1:hb['argc'] + 1])))
        ds = [x for x in qh.events('call') if last(x.a[0]) in ('despawn', 'try_despawn', 'despawn_recursive')]
        R.check(any(reached(qh, x) for x in ds), R_BTN, 'closed', 'closing the dialog does not remove it')
        sp = [set(last(y.a[1] or '') for v in s.a[3] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op == 'agg') for xs in acts.values() for h2, evs, sps in xs for s in sps]
        R.check(any(all(last(k) in s for k in mk_) for s in sp), R_BTN, 'dialog', 'the dialog that is opened is not the one that is closed')
def appfn(b): return any('bevy_app::app::App' in l[0] for l in b['locals'][1:b['argc'] + 1]) or b['path'].endswith('::main')
def widgets(P, R, m):
    """the action given to a widget ends up observing the entity that is clicked"""
    for w in sorted(m.widgets):
        b = P.bodies[w]; nm = last(w)
        if nm not in ('button', 'button_small', 'checkbox'): continue
        ai = [i for i in range(1, b['argc'] + 1) if b['locals'][i][0] == 'I' or len(b['locals'][i]) > 1 and b['locals'][i][1] == 'action']
        if not R.check(len(ai) == 1, R_BTN, nm + ' action', '%s takes no action' % nm): continue
        q = analyse(P, w, foreign=True); p = mk('param', q.g.uid, ai[0])
        ret = [nf(e.a[0]) for e in q.events('ret')]
        ok = False; seen = []
        for r in ret:
            for y in [r] + list(walk_nodes(r)):
                if y.op == 'agg' and y.a[0] == 'closure' and y.a[1] in P.bodies:
                    for i, c in enumerate(y.a[4]):
                        if any(z is p for z in [nf(c)] + list(walk_nodes(nf(c)))):
                            seen.append(y.a[1]); qc = analyse(P, y.a[1], foreign=True)
                            for e in qc.events('call'):
                                if last(e.a[0]) == 'observe' and always(qc, e.blk) and any(z.op == 'fld' and z.a[1] == str(i) for z in [nf(e.a[3][1])] + list(walk_nodes(nf(e.a[3][1])))):
                                    up = nf(e.a[3][0])
                                    ok = ok or any(z.op == 'agg' and last(z.a[1] or '') == 'Button' for z in [up] + list(walk_nodes(up))) or any(last(x.a[0]) == 'spawn' and any(z.op == 'agg' and last(z.a[1] or '') == 'Button' for v in x.a[3] for z in [nf(v)] + list(walk_nodes(nf(v)))) for x in qc.events('call'))
        R.check(ok, R_BTN, nm, 'the action of a %s is not run when it is clicked' % nm)
def plugins(P, R, m):
    want = set()
    for b, q, e in m.calls:
        if last(e.a[0]) in ('add_systems', 'add_observer', 'init_resource', 'insert_resource', 'add_plugins') and appfn(b) and b['kind'] == 'fn' and not b['path'].endswith('::main'): want.add(b['path'])
    mains = [(b, q, e) for b, q, e in m.calls if b['path'].endswith('::main') and b['crate'] == ED]
    got = set()
    work = [(b, q, e) for b, q, e in mains]
    for b, q, e in m.calls:
        if last(e.a[0]) == 'add_plugins' and (b['path'].endswith('::main') or b['path'] in want) and always(q, e.blk):
            for v in e.a[3][1:]: got |= {(b['path'], x) for x in fns(v)}
    inst = set(); work = [x for p, x in got if p.endswith('::main')]
    while work:
        x = work.pop()
        if x in inst: continue
        inst.add(x); work += [y for p, y in got if p == x]
        qx = analyse(P, x) if x in P.bodies else None
        for z in (qx.f.blocks if qx else []): pass
    called = inlined_into(P, inst | {b['path'] for b, q, e in mains})
    for w in sorted(want):
        R.check(w in inst or w in called, R_PLUG, w[len(ED) + 2:], 'the plugin %s is not added to the app' % w)
    ps = {last(y.a[1] or '') for b, q, e in mains if last(e.a[0]) == 'add_plugins' and always(q, e.blk) for v in e.a[3][1:] for y in [nf(v)] + list(walk_nodes(nf(v))) if y.op == 'agg'}
    R.check({'DefaultPlugins', 'NavmeshPlugins'} <= ps, R_PLUG, 'libraries', 'the editor runs without %s' % ', '.join(sorted({'DefaultPlugins', 'NavmeshPlugins'} - ps)))
    R.check(any(last(e.a[0]) == 'run' for b, q, e in mains), R_PLUG, 'run', 'the editor is never run')
def inlined_into(P, roots):
    """functions of the editor these call, directly or not"""
    out = set(); work = list(roots)
    while work:
        x = work.pop()
        if x not in P.bodies: continue
        for i, ci, t in calls(P.bodies[x]):
            n = ci and (ci.get('fn') or ci.get('decl'))
            n = n if isinstance(n, str) else None
            if n and strip_gen(n) in P.bodies and strip_gen(n) not in out: out.add(strip_gen(n)); work.append(strip_gen(n))
    return out
