from conv import *
from seqs import *
from checks.c18 import strip_proj
EXPLAIN = ('The registering and the queueing function are described on the value graph of the inlined MIR: every call with an effect, its exact path condition, and what it is given. '
           'Every other operation on the backend resource or on the queue, anywhere in the crates, is enumerated from the type-checked program and has to be one that neither replaces, reorders nor drops an entry.')
R_SET = 'setting a backend stores that very system'
R_ONLY = 'nothing else changes the backend'
R_PLUG = 'a backend plugin installs its backend'
R_Q = 'each request is queued once with its own configuration'
R_H = 'the handle returned is the one queued, and fresh'
R_ORD = 'the queue is first in, first out'
R_INST = 'the plugins install the queue'
BACK = 'NavmeshAffectorBackend'
READ = {'get_resource', 'resource', 'contains_resource', 'is_resource_added', 'is_resource_changed', 'get_resource_ref', 'resource_ref', 'cloned', 'copied', 'clone', 'deref', 'as_ref', 'ok_or', 'ok_or_else', 'map', 'is_some', 'is_none', 'branch',
        'into_inner', 'run_if', 'resource_exists', 'resource_added', 'resource_changed', 'eq', 'fmt', 'from', 'into', 'and_then', 'unwrap_or', 'expect', 'unwrap', 'from_residual', 'get_resource_id', 'resource_id', 'component_id', 'filter', 'context', 'drop'}
QREAD = {'push_back', 'push', 'pop_front', 'len', 'is_empty', 'iter', 'front', 'get', 'deref', 'deref_mut', 'default', 'new', 'with_capacity', 'clone', 'reserve', 'init_resource', 'as_ref', 'as_mut', 'drain_all', 'first', 'fmt', 'into_iter', 'eq', 'from', 'into', 'capacity', 'shrink_to_fit',
         'as_slice', 'resource_exists', 'get_resource', 'get_resource_mut', 'resource', 'resource_mut', 'last', 'back', 'contains', 'branch', 'into_inner', 'drop'}
def tail(n): return strip_gen(n).split('::')[-1]
def effects(q):
    return [(e, tail(e.a[0])) for e in q.events('call') if not unsat(q.facts(e.blk))]
def root(v):
    """the app or world something was obtained from"""
    v = strip_proj(v)
    while v.op == 'call' and tail(v.a[0]) in ('world_mut', 'world', 'main_mut', 'main', 'sub_app_mut', 'as_mut', 'deref_mut', 'borrow_mut', 'add_plugins', 'init_asset', 'init_resource', 'insert_resource', 'add_systems', 'add_observer', 'register_type') and v.a[1] or v.op == 'after':
        v = strip_proj(v.a[1][0]) if v.op == 'call' else strip_proj(v.a[3])
    return v
def registered(P, R, q, label, app, system):
    """the one insertion of the backend: (ok)"""
    ins = [(e, n) for e, n in effects(q) if mentions(e, BACK)]
    reg = [(e, n) for e, n in effects(q) if n.startswith('register_system') or n in ('register_boxed_system',)]
    ins = [(e, n) for e, n in ins if n not in READ]
    if not R.check(len(ins) == 1 and ins[0][1] == 'insert_resource', R_SET, label + ' / stored', '%s does %s with the backend' % (label, [n for _, n in ins] or 'nothing')): return None
    e = ins[0][0]
    R.check(taut(q.facts(e.blk)) and q.loop(e.blk) is None, R_SET, label + ' / always', '%s stores the backend only when %s' % (label, showf(q.facts(e.blk))[:200]))
    v = nf(e.a[2][-1])
    w = nf(v.a[4][0]) if v.op == 'agg' and v.a[1] and v.a[1].endswith(BACK) else v
    m = [x for x, n in reg if same(nf(x.a[4]), w)]
    if not R.check(len(m) == 1, R_SET, label + ' / value', '%s stores %s, which is not the id of a system registered there' % (label, shown(v)[:120])): return None
    s = nf(m[0].a[2][-1])
    while s.op == 'call' and tail(s.a[0]) in ('into_system', 'into', 'new', 'from') and len(s.a[1]) == 1: s = nf(s.a[1][0])
    R.check(same(root(e.a[3][0]), app) and same(root(m[0].a[3][0]), app), R_SET, label + ' / world', '%s registers the system in %s and stores its id in %s' % (label, shown(root(m[0].a[3][0]))[:60], shown(root(e.a[3][0]))[:60]))
    if system is not None: R.check(same(s, system), R_SET, label + ' / system', '%s registers the system %s' % (label, shown(s)[:80]))
    return s
def mentions(e, word):
    ci = e.a[1] or {}
    return any(word in str(x) for x in (ci.get('gargs') or []) + (ci.get('rargs') or []) + [ci.get('fn') or ''])
def run(P, R):
    f = [x for x in find(P, 'set_navmesh_affector_backend') if P.bodies[x].get('impl_trait')] or find(P, 'set_navmesh_affector_backend')
    if R.check(f, 'anchor', 'set_navmesh_affector_backend', 'the function set_navmesh_affector_backend this property is about no longer exists'):
        q = analyse(P, f[0]); app = mk('param', q.g.uid, 1)
        registered(P, R, q, 'set_navmesh_affector_backend', app, mk('param', q.g.uid, 2))
    n = 0
    for b in user_bodies(P):
        for i, ci, t in calls(b):
            if not ci: continue
            if any(BACK in str(x) for x in (ci.get('gargs') or []) + (ci.get('rargs') or [])):
                k = tail(ci.get('decl') or ci.get('fn')); n += 1
                own = b['path'].split('::{closure')[0] in f or all_from(P, b['path'], f)
                R.check(k in READ or own, R_ONLY, '%s -> %s' % (short(b['path']), k), '%s calls %s on the backend' % (short(b['path']), k))
        for ty in b['locals'][1:b['argc'] + 1]:
            if 'ResMut' in str(ty) and BACK in str(ty): R.fail(R_ONLY, short(b['path']), '%s is given the backend to change' % short(b['path']))
    R.check(n > 0, R_ONLY, 'any', 'the backend is used nowhere')
    for ty, crate in (('Mesh3dNavmeshPlugin', 'bevy_rerecast_core'), ('AvianRerecastPlugin', 'avian_rerecast')):
        g = find1(P, R, 'build', ty, crate, 'Plugin')
        if not g: continue
        q = analyse(P, g)
        s = registered(P, R, q, ty, mk('param', q.g.uid, 2), None)
        if s is not None:
            own = s.op == 'fnptr' and s.a[0].split('::')[0] == crate
            R.check(own, R_PLUG, ty, '%s installs %s' % (ty, shown(s)[:80]))
    queue(P, R); install(P, R)
def all_from(P, path, roots):
    """private function only called from the given ones"""
    if path in roots: return True
    users = {b['path'] for b in P.all for i, ci, t in calls(b) if ci and (ci.get('fn') or '') == path}
    return bool(users) and not P.bodies.get(path, {}).get('pub') and all(u in roots for u in users)
def queue(P, R):
    f = find1(P, R, 'generate', 'NavmeshGenerator', 'bevy_rerecast_core')
    if not f: return
    q = analyse(P, f); cfg = mk('param', q.g.uid, 2); me = mk('param', q.g.uid, 1)
    eff = [(e, n) for e, n in effects(q) if n not in ('clone',)]
    push = [(e, n) for e, n in eff if n in ('push_back', 'push')]
    if not R.check(len(push) == 1, R_Q, 'push', 'a request is appended to the queue %d times' % len(push)): return
    e = push[0][0]
    R.check(taut(q.facts(e.blk)) and q.loop(e.blk) is None, R_Q, 'always', 'a request is queued when %s%s' % (showf(q.facts(e.blk))[:200], '' if q.loop(e.blk) is None else ', in a loop'))
    to = strip_proj(e.a[3][0])
    while to.op == 'call' and tail(to.a[0]) in ('deref_mut', 'as_mut') and to.a[1]: to = strip_proj(to.a[1][0])
    R.check(under_self(to, me), R_Q, 'queue', 'a request is appended to %s' % shown(to)[:100])
    v = nf(e.a[2][-1])
    if not R.check(v.op == 'agg' and len(v.a[4]) >= 2, R_Q, 'entry', 'an entry is %s' % shown(v)[:100]): return
    parts = [bare(x) for x in v.a[4]]
    R.check(sum(same(x, cfg) for x in parts) == 1, R_Q, 'configuration', 'the entry queued has the configuration %s' % ', '.join(shown(x)[:60] for x in parts))
    hs = [x for x in parts if not same(x, cfg)]
    fresh = [x for x in hs if x.op == 'call' and tail(x.a[0]) == 'reserve_handle' or call_is(x, 'get_strong_handle', 'get_handle')]
    fresh = [x for x in fresh if tail(x.a[0]) == 'reserve_handle' and under_self(root(x.a[1][0]), me)]
    if R.check(len(fresh) == 1, R_H, 'fresh', 'the handle queued is %s' % ', '.join(shown(x)[:80] for x in hs)):
        for r in q.events('ret'): R.check(same(bare(r.a[0]), fresh[0]), R_H, 'returned', 'the handle returned is %s' % shown(bare(r.a[0]))[:100])
    for e2, n in eff:
        if e2 is not e and n not in ('reserve_handle', 'deref', 'deref_mut', 'get_handle_provider'):
            to = strip_proj(e2.a[3][0]) if e2.a[2] else None
            if to is not None and under_self(to, me): R.check(n in QREAD - {'push_back', 'push', 'pop_front', 'deref_mut'}, R_Q, 'also ' + n, 'a request also calls %s' % n)
    n = 0
    for b in user_bodies(P):
        for i, ci, t in calls(b):
            if not ci: continue
            k = tail(ci.get('decl') or ci.get('fn'))
            g = [str(x) for x in (ci.get('gargs') or []) + (ci.get('rargs') or [])]
            if any('NavmeshQueue' in x or 'Handle<' in x and 'NavmeshConfig' in x for x in g):
                n += 1
                R.check(k in QREAD or strip_gen(ci.get('decl') or '').startswith(('core::iter', 'core::option', 'core::result', 'core::fmt', 'core::cmp', 'core::clone')) and k not in ('rev', 'for_each') or k == 'insert_resource' and 'plugin' in b['path'].lower() or k in ('add_plugins', 'add_systems'), R_ORD, '%s -> %s' % (short(b['path']), k), '%s calls %s on the queue of requests' % (short(b['path']), k))
                if k == 'push_back' or k == 'push': R.check('VecDeque' in (ci.get('fn') or '') and k == 'push_back' or 'vec::Vec' in (ci.get('fn') or ''), R_ORD, '%s / kind' % short(b['path']), 'requests are kept in an unordered collection: %s' % ci.get('fn'))
    R.floor(R_ORD, 2)
def under_self(v, me):
    while v.op in ('fld', 'deref', 'ref', 'upd', 'sref'):
        if same(v, me): return True
        if v.op == 'ref' and isinstance(v.a[0], tuple): return False
        v = v.a[0]
    return same(v, me)
def install(P, R):
    f = find1(P, R, 'build', 'RerecastPlugin', 'bevy_rerecast_core', 'Plugin')
    if f:
        todo = [f]; done = set(); found = []; asset = []
        while todo:
            p = todo.pop()
            if p in done or p not in P.bodies: continue
            done.add(p); q = analyse(P, p)
            for e, n in effects(q):
                if not taut(q.facts(e.blk)): continue
                if n == 'add_plugins':
                    for x in walk_nodes(nf(e.a[2][-1])):
                        if x.op == 'fnptr': todo.append(x.a[0])
                        if x.op == 'agg' and x.a[1]: todo += find(P, 'build', x.a[1].split('::')[-1], None, 'Plugin')
                if mentions(e, 'NavmeshQueue') and n in ('init_resource', 'insert_resource'): found.append(p)
                if n == 'init_asset' and any(str(x).endswith('::Navmesh') for x in (e.a[1] or {}).get('gargs') or []): asset.append(p)
        R.check(found, R_INST, 'queue', 'RerecastPlugin does not always install the queue of requests')
        R.check(asset, R_INST, 'asset', 'RerecastPlugin does not always install the navmesh assets, from which handles are reserved')
    f = find1(P, R, 'build', 'NavmeshPlugins', 'bevy_rerecast', 'PluginGroup')
    if f:
        q = analyse(P, f)
        added = {x.a[1].split('::')[-1] for e, n in effects(q) if n.startswith('add') and taut(q.facts(e.blk)) for v in e.a[2][1:] for x in walk_nodes(nf(v)) if x.op == 'agg' and x.a[1]}
        gone = [n for e, n in effects(q) if n in ('disable', 'remove', 'build') and n != 'build']
        for n in ('RerecastPlugin', 'RerecastEditorIntegrationPlugin'):
            R.check(n in added, R_INST, n, 'the plugin group does not always add %s' % n)
        R.check(not gone, R_INST, 'disabled', 'the plugin group calls %s' % gone)
