from lib import *
EXPLAIN = ('Error-flow analysis on MIR: for every call that returns a Result, in every function and closure of the workspace crates, the branch taken on failure is followed to the end of the function; '
           'it must end by returning an error, by panicking or by a log call, and an unexamined Result must itself be handed on.')
RES = 'core::result::Result'
CR = ['rerecast', 'avian_rerecast', 'bevy_rerecast_core', 'bevy_rerecast_editor', 'bevy_rerecast_editor_integration', 'bevy_rerecast']
DISCARD = {'ok', 'err', 'is_ok', 'is_err', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'map_or_else', 'drop', 'forget', 'iter', 'into_iter', 'is_ok_and', 'is_err_and', 'and', 'or', 'flatten', 'is_none_or'}
def lookup(name, dty):
    """asking the world for something that may not be there is no failure"""
    s = show_ty(dty) if not isinstance(dty, str) else dty
    return 'QueryEntityError' in s or 'QuerySingleError' in s
def opaque_user(P):
    if not hasattr(P, '_opq'): P._opq = {b['path'] for b in P.all if b['crate'] != 'models' and b['kind'] != 'closure' and b['crate'] in CR}
    return P._opq
def has(v, r):
    """the value contains r itself (not merely the state a call left behind)"""
    return any(x is r for x in walk_nodes(v, lambda y: y.op == 'after'))
def is_res(t): return isinstance(t, tuple) and t and t[0] == RES
def iserr(v, r):
    if v.op == 'agg' and v.a[2] == 'Err': return True
    if v.op == 'agg' and v.a[2] == 'Some': return iserr(v.a[4][0], r)
    if v is r: return True
    if v.op != 'agg' and has(v, r): return True
    return False
def via(q, n, b, reach):
    if n.op == 'phi' and n.a[2] == q.g.uid and n.a[0] not in q.loops:
        return [x for p, v in q.g.phi_args(n).items() if p in reach for x in via(q, v, p, reach)]
    return [n]
def run(P, R):
    nfun = 0
    for b in user_bodies(P, CR):
        if b['kind'] not in ('fn', 'assocfn', 'closure'): continue
        raw = [ci for i, ci, t in calls(b) if ci]
        has = any(t[3] and is_res(parse(b['locals'][t[3][0]][0])) for i, ci, t in calls(b) if ci and t[3])
        if not has: continue
        nfun += 1
        try: q = analyse(P, b['path'], opaque=opaque_user(P) - {b['path']})
        except Exception as ex:
            R.fail('analysed', short(b['path']), 'could not analyse %s: %r' % (b['path'], ex)); continue
        check_body(P, R, b, q)
    R.note('functions with fallible calls', nfun)
    R.floor('failure is passed on', 20)
_t = {}
def parse(s):
    if s not in _t:
        try: _t[s] = parse_ty(s)
        except Exception: _t[s] = ('?',)
    return _t[s]
def body_name(b):
    return short(b['path']).split('::')[-1] + (' closure' if b['kind'] == 'closure' else '')
def check_body(P, R, b, q):
    RULE = 'failure is passed on'
    rets = q.events('ret'); seen = {}
    for e in q.events('call'):
        name, ci, vals, dv, r = e.a
        dty = ci.get('_dty')
        if not is_res(dty): continue
        nm = strip_gen(name).split('::')[-1]
        if 'fmt' in strip_gen(name).split('::') or 'Formatter' in name or show_ty(dty).endswith('core::fmt::Error>') : continue
        if lookup(name, dty): continue
        seen[nm] = seen.get(nm, 0) + 1
        key = '%s -> %s' % (body_name(b), nm)
        if exempt(P, b, nm): R.ok('attributes without a known identity are left out', key); continue
        errs = []
        for blk in range(len(q.f.blocks)):
            if not q.live[blk] or q.f.blocks[blk].term[0] != 'switch': continue
            if not has(q.g.cond[blk], r): continue
            for s in q.g.succ[blk]:
                F = q.edge(blk, s)
                E = q.discr_atom(mk('discr', nf(r), RES), 1)
                if not (set(fatoms(E)) & set(fatoms(F))) or implies(F, B.NOT(E)) or unsat(F): continue
                errs.append((blk, s))
        if not errs:
            flows = any(has(v, r) for x in rets for v in via(q, x.a[0], x.blk, set(range(len(q.f.blocks)))))
            for e2 in q.events('call'):
                if e2 is e: continue
                if any(has(v, r) for v in e2.a[2]) and strip_gen(e2.a[0]).split('::')[-1] not in DISCARD: flows = True
            for e2 in q.events('store'):
                if not isinstance(e2.a[0][0], int) and has(e2.a[2], r): flows = True
            for e2 in q.events('panic') + q.events('stop'):
                flows = flows or e2.blk >= e.blk and any(isinstance(y, N) and has(y, r) for y in (e2.a if isinstance(e2.a, (tuple, list)) else ()))
            R.check(flows, RULE, key, 'the Result of %s in %s is never looked at' % (name, b['path']))
            continue
        for blk, s in errs:
            reach = q.reach([s])
            if reported(q, s, reach, blk): R.ok(RULE, key); continue
            lat = [h for h in q.loops if e.blk in q.loops[h] and h in reach]
            if lat and nm == 'try_from_standard_material':
                once = q.reach([s], {lat[-1]}) | {blk}
                made = [e2 for e2 in q.events('store') if e2.blk in once and isinstance(e2.a[0], tuple) and e2.a[0][-1] == '[]' and e2.a[2].op == 'agg' and 'material' in e2.a[2].a[3]]
                ok = all(x.op == 'agg' and x.a[2] == 'None' for e2 in made for x in via(q, fld(e2.a[2], 'material'), e2.blk, once))
                R.check(ok and bool(made), RULE, key, 'when %s fails, %s sends another material' % (nm, b['path'])); continue
            if lat: R.fail(RULE, key, 'when %s fails, %s goes on with the next item as if nothing had happened' % (nm, b['path'])); continue
            bad = None
            for x in rets:
                if x.blk in reach:
                    for v in via(q, x.a[0], x.blk, reach | {blk}):
                        if iserr(v, r) or nm == 'try_from_standard_material' and left_out(q, v, reach | {blk}): continue
                        bad = v
            if bad is None: bad2 = None
            R.check(bad is None, RULE, key, 'when %s fails, %s still returns %s' % (nm, b['path'], shown(bad) if bad is not None else ''))
def reported(q, s, reach, blk):
    """the failing branch logs before it rejoins the normal one"""
    other = set()
    for t in q.g.succ[blk]:
        if t != s: other |= q.reach([t])
    only = reach - other
    for e in q.events('call'):
        n = e.a[0]
        if e.blk in only and ('tracing' in n or 'log::' in n or 'panic' in n or 'eprint' in n): return True
    return False
def exempt(P, b, nm):
    """leaving out a vertex attribute that has no known identity is what C22 promises"""
    return b['crate'] == 'bevy_rerecast_editor_integration' and 'serialized_mesh' in b['file'] and nm in ('try_into', 'try_from')

def left_out(q, v, reach):
    """a material that cannot be represented is sent as no material"""
    if v.op == 'agg' and v.a[2] == 'None': return True
    if v.op == 'agg' and v.a[2] == 'Some': v = v.a[4][0]
    if v.op == 'agg' and 'material' in v.a[3]:
        m = fld(v, 'material')
        return all(x.op == 'agg' and x.a[2] == 'None' for x in via(q, m, 0, reach))
    return False
