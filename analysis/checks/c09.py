from conv import *
from seqs import *
from checks.c05 import flat_cases
EXPLAIN = ('Parallel arrays are followed as groups: every write of one member (store, block copy, library or helper call) is given the slot it fills and the slot it is filled from, and must have counterparts in the other members with '
           'the same slots under the same condition; temporary arrays that feed a group form groups of their own. The lengths handed out are compared as formulas.')
R_SLOT = 'a polygon, its region and its area are written together'
R_SRC = 'what is written together belongs to the same polygon'
R_COUNT = 'the number of polygons changes with the writes'
R_LEN = 'the arrays handed out describe the same polygons'
R_DETAIL = 'detail triangles, their flags and submeshes stay aligned'
ROLES = ('polygons', 'regions', 'areas')
NVP = 'max_vertices_per_polygon'
def is_nvp(q, n):
    return n.op == 'fld' and n.a[1] == NVP or n.op == 'param' and str(n.a[1]) in q.nvp or n.op == 'phi' and n.a[1] and n.a[1][-1] == NVP
def divide(q, idx, unit):
    """idx = slot * unit + rest, where unit is a number of times nvp (0: a plain index)"""
    p = poly(nf(idx))
    if not unit: return nf(idx), const(0)
    s, r = {}, {}
    for mono, c in p.items():
        ats = [i for i, (at, e) in enumerate(mono) if is_nvp(q, at) and e > 0]
        if ats and (c / unit).denominator == 1:
            i = ats[0]; at, e = mono[i]
            m = mono[:i] + (((at, e - 1),) if e > 1 else ()) + mono[i + 1:]
            s[m] = s.get(m, 0) + c / unit
        else: r[mono] = c
    return from_poly(s), from_poly(r)
def source(q, v):
    """where a value was read: ('arr', key, index) or ('fld', owner, name) or ('const', v)"""
    v = nf(v)
    if v.op in ('sel', 'elem'):
        b = nf(v.a[0]); i = v.a[1][-1] if isinstance(v.a[1], tuple) else v.a[1]
        k = key_of(q, b)
        if k: return 'arr', k if k[-1] == '[]' or '[]' in k else k + ('[]',), nf(i)
    if v.op == 'fld':
        s = source(q, v.a[0])
        if s and s[0] == 'arr': return 'arr', s[1] + (v.a[1],), s[2]
        return 'fld', nf(v.a[0]), v.a[1]
    if num(v) is not None or v.op == 'agg' and all(num(x) is not None for x in v.a[4]): return 'const', v, None
    return None
def key_of(q, b):
    b = nf(b)
    if b.op == 'phi': return b.a[1]
    if b.op == 'deref': return (('O', b.a[0]),)
    if b.op == 'fld':
        k = key_of(q, b.a[0]); return k + (b.a[1],) if k else None
    if b.op in ('after', 'upd', 'store'): return key_of(q, b.a[0]) if b.op != 'after' else None
    return None
class Act: pass
def alternatives(q, v, depth=3):
    v = nf(v)
    cs = q.cases(v) if depth and v.op == 'phi' and v.a[1][-1] != '[]' and not source(q, v) else None
    if not cs: return [(True, v)]
    return [(B.AND(c, d), y) for c, x in cs for d, y in alternatives(q, x, depth - 1)]
def acts(q, key, unit):
    """writes of the array at key -> [Act]"""
    out = []
    def put(e, kind, slot, rest, src, extra=None, when=True):
        a = Act(); a.e = e; a.kind = kind; a.slot = slot; a.rest = rest; a.src = src; a.extra = extra; a.loop = q.loop(e.blk); a.when = when; out.append(a)
    for e in q.events('store'):
        if unsat(q.facts(e.blk)): continue
        if e.a[0] == key and e.a[1] and e.a[1][-1].op == 'any': continue                    # the whole array is reset
        if e.a[0] == key:
            s, r = divide(q, e.a[1][-1], unit); v = nf(e.a[2])
            for c, x in alternatives(q, v): put(e, 'set', s, r, source(q, x), None, c)
        elif e.a[0] == key[:-1] and key[-1] == '[]': put(e, 'whole', None, None, nf(e.a[2]))   # (a whole element of an array of structs keeps its members together)
    for e in q.events('call'):
        if unsat(q.facts(e.blk)): continue
        for j, v in enumerate(e.a[2]):
            if not (v.op in ('ref', 'sref') and (tuple(v.a[0]) == key[:-1] or tuple(v.a[0]) == key)): continue
            n = strip_gen(e.a[0]).split('::')[-1]; off = v.a[2] if v.op == 'sref' else const(0)
            d = e.a[3][j]
            if n == 'copy_within' and len(e.a[2]) == 3:
                rg = nf(e.a[2][1])
                if rg.op != 'agg': put(e, 'odd', None, None, None); continue
                fs = dict(zip(rg.a[3], rg.a[4]))
                s, r = divide(q, from_poly(padd(poly(off), poly(e.a[2][2]))), unit)
                s0, r0 = divide(q, from_poly(padd(poly(off), poly(fs['start']))), unit)
                ln = from_poly(padd(poly(fs['end']), poly(fs['start']), -1))
                put(e, 'set', s, r, ('arr', key, from_poly(padd(poly(off), poly(fs['start'])))) if same(r, r0) else None, ln)
            elif n in ('copy_from_slice', 'clone_from_slice') and j == 0:
                o = e.a[2][1]
                if o.op not in ('sref',): put(e, 'odd', None, None, None); continue
                s, r = divide(q, off, unit)
                put(e, 'set', s, r, ('arr', tuple(o.a[0]) + ('[]',), nf(o.a[2])), v.a[3] if v.op == 'sref' else None)
            elif n in ('copy_from_slice', 'clone_from_slice'): pass
            elif n == 'fill':
                s, r = divide(q, off, unit)
                if num(nf(e.a[2][1])) != 65535: put(e, 'odd', s, r, None)
            elif not writes(q, e, j): pass
            else: put(e, 'call', None, None, None, (j, n))
    return out
def writes(q, e, j):
    """may the call change what its argument j refers to"""
    ci = e.a[1]; at = (ci.get('_aty') or []) if isinstance(ci, dict) else []
    return not (len(at) > j and at[j][0] == '&')
def cond(q, a, L):
    """when the write happens in a pass of loop L"""
    b = a.e.blk; c = q.chain(b)
    if a.loop != L and L in c: b = c[c.index(L) - 1]
    return B.AND(q.guard(b, L), a.when)
def group(P, R, q, keys, units, seen, name):
    """keys: role -> key of the array"""
    sig = tuple(sorted(keys.items(), key=str))
    if sig in seen: return
    seen.add(sig)
    A = {r: acts(q, keys[r], units.get(r, 0)) for r in keys}
    label = name
    for r in keys:
        for a in A[r]:
            if a.kind == 'whole' and a.src.op in ('vecfill', 'vecnew', 'agg') and all(b is a or q.dominates(a.e.blk, b.e.blk) for b in A[r]) and a.loop is None: continue
            if a.kind in ('odd', 'whole'): R.fail(R_SLOT, label + ' / form', '%s are changed in a way that is not understood (%s)' % (r, str(a.e.a[0])[:60]))
    # helper calls: the same helper for every member
    calls_ = {r: [a for a in A[r] if a.kind == 'call'] for r in keys}
    done = set()
    for r in keys:
        for a in calls_[r]:
            partners = {}
            for r2 in keys:
                ps = [b for b in calls_[r2] if b.extra == a.extra and b.loop == a.loop and equiv(q.guard(b.e.blk, b.loop), q.guard(a.e.blk, a.loop)) and b.e.blk == a.e.blk]
                if len(ps) == 1: partners[r2] = ps[0]
            if set(partners) == {'polygons'} and merging(P, R, q, a, sets_of(A), keys, units, label): continue
            if not R.check(len(partners) == len(keys), R_SLOT, label + ' / ' + a.extra[1], '%s is called for %s only, not for all of %s' % (a.extra[1], sorted(partners), sorted(keys))): continue
            k = tuple(sorted(id(b) for b in partners.values()))
            if k in done: continue
            done.add(k)
            vals = {r2: [source(q, v) for i, v in enumerate(b.e.a[3]) if i != b.extra[0] and b.e.a[2][i].op not in ('ref', 'sref')] for r2, b in partners.items()}
            n = {len(v) for v in vals.values()}
            if R.check(len(n) == 1, R_SRC, label + ' / ' + a.extra[1], '%s is called with other arguments' % a.extra[1]):
                for i in range(n.pop()): feeds(P, R, q, {r2: v[i] for r2, v in vals.items()}, seen, label, units)
            cs = {r2: [b.e.a[2][i] for i in range(len(b.e.a[2])) if i != b.extra[0] and b.e.a[2][i].op == 'ref'] for r2, b in partners.items()}
            for r2, refs in cs.items():
                for x in refs: q.counters9.setdefault((r2, keys[r2]), set()).add(tuple(x.a[0]))
    for (r, k), cset in list(q.counters9.items()):
        if k == keys.get(r): R.check(len(cset) == 1, R_COUNT, label + ' / counter', '%s are counted with different counters' % r)
    # element writes
    sets = {r: [a for a in A[r] if a.kind == 'set'] for r in keys}
    def neighbour(a): return a.rest is not None and any(is_nvp(q, y) for y in walk_nodes(a.rest))
    def renumbered(a):      # a corner is replaced by one made from it alone: the polygon stays in its slot
        if a.e.kind != 'store' or not a.e.a[1]: return False
        v = nf(a.e.a[2]); i = nf(a.e.a[1][-1]); own = [y for y in walk_nodes(v) if y.op == 'sel' and y.a[0].op == 'phi' and y.a[0].a[1] == a.e.a[0] and len(y.a[1]) == 1 and same(y.a[1][0], i)]
        if not own: return False
        rest = subst(v, {y: mk('sym', 'own') for y in own})
        return not any(y.op in ('sel', 'elem', 'phi', 'param') for y in walk_nodes(rest))
    if 'polygons' in sets: sets['polygons'] = [a for a in sets['polygons'] if not neighbour(a) and not renumbered(a)]
    slots = []
    for r in ('regions', 'areas'):
        for a in sets.get(r, []):
            L = a.loop
            if not any(L == l and same(s, a.slot) for l, s in slots): slots.append((L, a.slot))
    used = set()
    for L, s in slots:
        here = {}
        for r in keys:
            here[r] = [a for a in sets[r] if same(a.slot, s) and (a.loop == L or L in q.chain(a.e.blk))]
            used.update(id(a) for a in here[r])
        nm = '%s / slot %s' % (label, (shown(s)[:60] if num(s) is not None else 'x'))
        consts = [a for a in here['regions'] if a.src and a.src[0] == 'const']
        for a in consts: q.later9.append((q, a, L, nm, keys['regions']))
        rest = [a for a in here['regions'] if a not in consts]
        if not here['areas'] and not rest: continue           # a merged polygon loses its region; checked above
        g = {r: orr(cond(q, a, L) for a in here[r]) for r in keys}
        R.check(equiv(g['regions'], g['areas']), R_SLOT, nm + ' / region and area', 'regions are written when %s, areas when %s' % (showf(g['regions'])[:120], showf(g['areas'])[:120]))
        if 'polygons' in keys:
            gp = g['polygons']
            R.check(implies(gp, g['regions']) and (implies(g['regions'], gp) or implies(B.AND(g['regions'], B.NOT(gp)), same_slot(q, gp, s, here, keys))), R_SLOT, nm + ' / polygon',
                    'polygons are written when %s, their regions when %s' % (showf(gp)[:120], showf(g['regions'])[:120]))
        first = {r: [a for a in here[r] if not (a.src and a.src[0] == 'const')] for r in keys}
        for a in first['regions']:
            for b in first['areas']:
                one_region(R, q, a, b, here.get('polygons', []), cond(q, a, L), nm)
                d = {'regions': a.src, 'areas': b.src}
                ps = first.get('polygons', [])
                if ps:
                    pick = [p for p in ps if num(p.rest) == 0] or ps
                    d['polygons'] = pick[0].src
                feeds(P, R, q, d, seen, label, units, keys)
        count(P, R, q, L, s, first, here, keys, nm)
    for r in keys:
        for a in sets[r]:
            if id(a) not in used and not (a.src and a.src[0] == 'const' and r == 'polygons'):
                R.fail(R_SLOT, '%s / %s alone' % (label, r), '%s are written at slot %s, but not their counterparts' % (r, shown(a.slot)[:60]))
def num_of(v): return num(fld(v, '0')) if v.op == 'agg' else num(v)
def orr(gs):
    r = False
    for g in gs: r = B.OR(r, g)
    return r
def same_slot(q, gp, s, here, keys):
    """the block copy is left out only when it would copy a slot to itself"""
    r = False
    for p in here['polygons']:
        if p.src and p.src[0] == 'arr' and p.src[1] == keys['polygons']:
            for at in (fatoms(gp) if not isinstance(gp, bool) else ()):
                if at.op == 'eq0':
                    rr, rest = divide(q, at.a[0], abs(unit_of(q, at.a[0])) or 1)
                    s0, _ = divide(q, p.src[2], q.units9.get(keys['polygons'], 0))
                    diff = padd(poly(s), poly(s0), -1)
                    if num(rest) == 0 and (same(rr, from_poly(diff)) or same(rr, from_poly(pmul(diff, pconst(-1))))): r = B.OR(r, B.var(at))
    return r
def unit_of(q, n):
    for mono, c in poly(n).items():
        if any(is_nvp(q, at) for at, e in mono): return c
    return 0
def sets_of(A): return {r: [a for a in A[r] if a.kind == 'set'] for r in A}
def arr_pair(q, at):
    """an atom that compares two elements of one array -> (key, index, index)"""
    if at.op != 'eq0': return None
    p = poly(at.a[0]); xs = [(source(q, y), c) for mono, c in p.items() for y, e_ in mono]
    if len(xs) != 2 or any(len(m) != 1 for m in p) or any(not x or x[0] != 'arr' for x, c in xs) or xs[0][0][1] != xs[1][0][1] or xs[0][1] != -xs[1][1]: return None
    return xs[0][0][1], xs[0][0][2], xs[1][0][2]
def merging(P, R, q, a, sets, keys, units, label):
    """two polygons become one: the second one's slot is freed in the same pass, and the first keeps its region only if both had it"""
    L = a.loop; e = a.e
    slots = [divide(q, v, 1)[0] for i, v in enumerate(e.a[3]) if i != a.extra[0] and e.a[2][i].op not in ('ref', 'sref') and unit_of(q, v)]
    if L is None or len(slots) < 2: return False
    g = q.guard(e.blk, L)
    def freed(r, s): return [b for b in sets[r] if b.src and b.src[0] == 'arr' and b.src[1] == keys[r] and same(b.slot, s) and b.loop == L and q.dominates(e.blk, b.e.blk)]
    both = [r for r in ('regions', 'areas') if r in keys]
    def freed_when(r, s):
        bs = freed(r, s); c = orr(cond(q, b, L) for b in bs)
        return bs and implies(c, g) and (implies(g, c) or r == 'polygons' and implies(B.AND(g, B.NOT(c)), same_slot(q, c, s, {'polygons': bs}, keys)))
    gone = [s for s in slots if all(freed_when(r, s) for r in (both or keys))]
    if not R.check(len(gone) == 1, R_SLOT, label + ' / merged', '%s is called for the polygons, but no slot is freed along with it' % a.extra[1]): return True
    if 'regions' not in keys: return True
    kept = [s for s in slots if not same(s, gone[0]) and num(s) is None and not q_const(q, s, L)]
    if not R.check(len(kept) == 1, R_SRC, label + ' / merged into', 'the polygon that is merged into is one of %s' % [shown(s)[:40] for s in kept]): return True
    none = False
    for b in sets['regions']:
        if b.src and b.src[0] == 'const' and same(b.slot, kept[0]) and b.loop == L: none = B.OR(none, cond(q, b, L))
    same_ = None
    for at in fatoms(none) if not isinstance(none, bool) else ():
        pr = arr_pair(q, at)
        if pr and pr[0] == keys['regions'] and (same(pr[1], kept[0]) and same(pr[2], gone[0]) or same(pr[2], kept[0]) and same(pr[1], gone[0])): same_ = B.var(at)
    R.check(same_ is not None and equiv(none, B.AND(g, B.NOT(same_))), R_SRC, label + ' / merged region', 'a merged polygon loses its region when %s, not exactly when the two regions differ' % showf(none)[:160])
    return True
def q_const(q, s, L): return all(y.op != 'phi' or y.a[0] not in q.loops[L] for y in walk_nodes(s))
def no_region(R, q, a, L, nm, key):
    """a polygon of the mesh has no region only where the parts it is made of have different ones"""
    g = cond(q, a, L); diff = False
    for at in (fatoms(g) if not isinstance(g, bool) else ()):
        pr = arr_pair(q, at)
        if pr and pr[0] in q.regions9: diff = B.OR(diff, B.NOT(B.var(at)))
    R.check(diff is not False and implies(g, diff) and num_of(a.src[1]) == 0, R_SRC, nm + ' / no region', 'a polygon is given the region %s when %s' % (shown(a.src[1])[:40], showf(g)[:160]))
def one_region(R, q, a, b, ps, g, nm):
    """a polygon made of several corners keeps a region only if all corners share it"""
    if not (a.src and a.src[0] == 'arr'): return
    idx = []
    for p in ps:
        if p.src and p.src[0] == 'arr' and not any(same(p.src[2], x) for x in idx): idx.append(p.src[2])
    if len(idx) < 2 or not any(same(a.src[2], x) for x in idx): return
    eq = [(pr, B.var(at)) for at in (fatoms(g) if not isinstance(g, bool) else ()) for pr in [arr_pair(q, at)] if pr and pr[0] == a.src[1]]
    done = [a.src[2]]
    for _ in idx:
        for x in idx:
            if not any(same(x, y) for y in done) and any(implies(g, v) and (same(pr[1], x) and any(same(pr[2], y) for y in done) or same(pr[2], x) and any(same(pr[1], y) for y in done)) for pr, v in eq): done.append(x)
    R.check(len(done) == len(idx), R_SRC, nm + ' / one region', 'a polygon of %d corners keeps the region of one corner though only %d corners are known to share it' % (len(idx), len(done)))
def feeds(P, R, q, d, seen, label, units, keys=None):
    """the sources of one write of all members"""
    if None in d.values():
        R.fail(R_SRC, label + ' / source', 'what is written to %s is not understood' % [r for r in d if d[r] is None]); return
    if all(v[0] == 'fld' for v in d.values()):
        ns = {'regions': ('region',), 'areas': ('area',)}
        R.check(len({id(v[1]) for v in d.values()}) == 1 and all(v[2] in ns.get(r, (v[2],)) for r, v in d.items()), R_SRC, label + ' / source', 'region and area come from %s' % ', '.join('%s of %s' % (v[2], shown(v[1])[:60]) for v in d.values()))
        return
    fl = {r: v for r, v in d.items() if v[0] == 'fld'}
    if set(fl) == {'regions', 'areas'}:
        if d.get('polygons') and d['polygons'][0] == 'arr': alone(P, R, q, d['polygons'][1], seen, label + "'s source")
        R.check(fl['regions'][1] is fl['areas'][1] and fl['regions'][2] == 'region' and fl['areas'][2] == 'area', R_SRC, label + ' / source', 'region and area come from %s' % ', '.join('%s of %s' % (v[2], shown(v[1])[:60]) for v in fl.values()))
        return
    if not R.check(all(v[0] == 'arr' for v in d.values()), R_SRC, label + ' / source', 'region, area and polygon stem from %s' % [v[0] for v in d.values()]): return
    k = {r: v[1] for r, v in d.items()}; idx = {}
    un = {}
    for r, v in d.items():
        u = q.units9.get(v[1])
        if u is None:
            u = 1 if r == 'polygons' and any(is_nvp(q, y) for y in walk_nodes(v[2])) else 0
            q.units9[v[1]] = u
        un[r] = u
        idx[r] = divide(q, v[2], u)[0]
    i0 = idx['regions']
    R.check(all(same(x, i0) for x in idx.values()), R_SRC, label + ' / slot', 'polygon, region and area come from slots %s' % ', '.join('%s %s' % (r, shown(x)[:60]) for r, x in idx.items()))
    for r, x in k.items():
        o = q.roles9.setdefault(x, r)
        R.check(o == r or r == 'polygons' and o == 'polygons', R_SRC, label + ' / role', 'an array is used for %s and for %s' % (o, r))
    old = q.groups9.setdefault(k['regions'], k['areas'])
    R.check(old == k['areas'], R_SRC, label + ' / arrays', 'regions and areas are taken from arrays that do not belong together')
    if 'regions' in k: q.regions9.add(k['regions'])
    names = {x for key in k.values() for x in key if isinstance(x, str)}
    if keys and all(k[r] == keys.get(r) for r in k): return
    kk = dict(k)
    group(P, R, q, kk, {r: un[r] for r in kk}, seen, label + "'s source")
def alone(P, R, q, key, seen, label):
    """polygons that all belong to one region: only the number of polygons goes along with them"""
    if ('alone', key) in seen: return
    seen.add(('alone', key)); q.units9[key] = 1
    A = acts(q, key, 1); keys = {'polygons': key}; sets = {'polygons': [a for a in A if a.kind == 'set']}
    for a in A:
        if a.kind == 'whole' and a.src.op == 'vecfill' and all(b is a or q.dominates(a.e.blk, b.e.blk) for b in A) and a.loop is None: continue
        if a.kind in ('odd', 'whole'): R.fail(R_SLOT, label + ' / form', 'polygons are changed in a way that is not understood (%s)' % str(a.e.a[0])[:60])
    merged = [a for a in A if a.kind == 'call']
    for a in merged: R.check(merging(P, R, q, a, sets, keys, {}, label), R_SLOT, label + ' / ' + a.extra[1], '%s is called for polygons in a way that is not understood' % a.extra[1])
    for a in sets['polygons']:
        f = Act(); f.e = a.e; f.src = a.src; f.loop = a.loop
        if a.src and a.src[0] == 'arr' and a.src[1] == key:
            f.src = ('arr', key, divide(q, a.src[2], 1)[0]); by = [m for m in merged if m.loop == a.loop and q.dominates(m.e.blk, a.e.blk)]
            if R.check(len(by) == 1, R_SLOT, label + ' / moved', 'a polygon is moved though none was merged'): count(P, R, q, a.loop, a.slot, {'regions': [f]}, {'areas': by}, {'regions': key}, label + ' / moved')
        elif num(a.rest) == 0: count(P, R, q, a.loop, a.slot, {'regions': [f]}, {'areas': [a]}, {'regions': key}, label + ' / appended')
def count(P, R, q, L, s, first, here, keys, nm):
    """appending raises the number of polygons, filling a gap from the end lowers it"""
    c = nf(s)
    selfsrc = [a for a in first['regions'] if a.src and a.src[0] == 'arr' and a.src[1] == keys['regions']]
    if L is None: return
    ph = None
    if selfsrc:
        p = padd(poly(selfsrc[0].src[2]), pconst(1)); n = nf(from_poly(p))
        if R.check(n.op == 'phi', R_COUNT, nm + ' / last', 'a gap is filled with the polygon %s, not the last' % shown(selfsrc[0].src[2])[:60]): ph = (n, -1)
    elif c.op == 'phi': ph = (c, 1)
    if ph is None: return
    n, step = ph
    if n.a[0] not in q.loops: return
    g = orr(q.guard(a.e.blk, n.a[0]) for a in here['areas'])
    pa = q.g.phi_args(n)
    for p, v in pa.items():
        if p not in q.loops[n.a[0]]: continue
        for cc, x in flat_cases(q, nf(v)):
            w = B.AND(B.AND(cc, q.guard(p, n.a[0])), q.edge(p, n.a[0]))
            if unsat(w): continue
            d = num(from_poly(padd(poly(x), poly(n), -1)))
            if d == step: R.check(implies(w, g) , R_COUNT, nm + ' / counted', 'the number of polygons changes by %s though none is written when %s' % (d, showf(w)[:120]))
            elif d == 0: R.check(unsat(B.AND(w, g)), R_COUNT, nm + ' / counted', 'the number of polygons does not change though one is written when %s' % showf(B.AND(w, g))[:160])
            else: R.fail(R_COUNT, nm + ' / counted', 'the number of polygons changes by %s (%s)' % (d, shown(x)[:60]))
def run(P, R):
    names = 'triangulate get_poly_merge_value merge_poly_verts count_poly_verts add_vertex push_back push_front'.split()
    ops = {b['path'] for b in P.all if b['crate'] == 'rerecast' and b.get('name') in names}
    rm = find1(P, R, 'remove_vertex', 'InternalPolygonNavmesh', 'rerecast')
    bm = [b['path'] for b in P.all if b['crate'] == 'rerecast' and b.get('name') == 'into_polygon_mesh' and b['kind'] != 'closure']
    if not R.check(len(bm) == 1 and rm, R_SLOT, 'anchors', 'the functions that build a polygon mesh no longer exist'): return
    for path, extra in ((bm[0], {rm}), (rm, set())):
        q = analyse(P, path, ops | extra)
        q.nvp = {'2'} if path == bm[0] else set()
        q.counters9 = {}; q.groups9 = {}; q.roles9 = {}; q.regions9 = set(); q.units9 = {}
        roots = {e.a[0][:-2] for e in q.events('store') if e.a[0][-2:] == ('regions', '[]')}
        if not R.check(len(roots) == 1, R_SLOT, 'roots', 'the regions of %d meshes are written' % len(roots)): continue
        root = roots.pop(); keys = {r: root + (r, '[]') for r in ROLES}
        q.units9[keys['polygons']] = 2; q.units9[keys['regions']] = q.units9[keys['areas']] = 0; q.regions9.add(keys['regions'])
        nm = path.split('::')[-1]
        q.later9 = []; group(P, R, q, keys, {'polygons': 2}, set(), nm)
        for x in q.later9: no_region(R, *x)
        if path == bm[0]: lengths(P, R, q, root)
    detail(P, R)
    R.floor(R_LEN, 8); R.floor(R_SLOT, 6); R.floor(R_SRC, 6); R.floor(R_COUNT, 4)
def at_most(q, v, old, n):
    """v is old, cut to n elements"""
    for c, x in flat_cases(q, v):
        if same(x, n) or unsat(c): continue
        if not same(x, old) or not implies(c, B.NOT(q.formula(mk('lt', nf(n), nf(x))))): return False
    return True
def lengths(P, R, q, root):
    """the mesh handed out: every array has one entry per polygon"""
    oks = [(c, nf(v.a[4][0]), e) for c, v, e in results(q) if v.op == 'agg' and v.a[2] == 'Ok']
    if not R.check(oks and all(v.op == 'agg' and 'Polygon' in str(v.a[1]) for c, v, e in oks), R_LEN, 'result', 'the mesh that is handed out is not understood'): return
    for c, v, e in oks:
        n = None
        for r in ('regions', 'areas'):
            ln = nf(fld(fld(v, r), '#len'))
            cs = [x for g, x in flat_cases(q, ln)]
            R.check(any(is_counter(q, x, root) for x in cs), R_LEN, r, 'the %s handed out have %s entries, however many polygons there are' % (r, shown(ln)[:80]))
            for x in cs:
                if is_counter(q, x, root):
                    if n is None: n = x
                    R.check(same(n, x), R_LEN, r + ' / count', 'regions and areas are cut to different numbers')
        if n is None: continue
        for r in ('regions', 'areas'):
            ln = nf(fld(fld(v, r), '#len')); olds = [x for g, x in flat_cases(q, ln) if not same(x, n)]
            R.check(all(at_most(q, ln, o, n) for o in olds) and len({id(o) for o in olds}) <= 1, R_LEN, r + ' / cut', 'the %s handed out have %s entries' % (r, shown(ln)[:80]))
        fl = nf(fld(v, 'flags'))
        R.check(fl.op == 'vecfill' and same(fl.a[1], n), R_LEN, 'flags', 'there are %s flags for %s polygons' % (shown(nf(fld(fl, '#len')))[:60], shown(n)[:60]))
        halves(P, R, q, v, n, root)
def is_counter(q, x, root): return x.op == 'phi' and x.a[1] == root + ('npolys',)
def halves(P, R, q, v, n, root):
    """corner indices and neighbours: nvp of each for every polygon"""
    for r, off in (('polygons', 0), ('polygon_neighbors', 1)):
        x = nf(fld(v, r)); ln = nf(fld(x, '#len'))
        k = ln.a[1][:-1] if ln.op == 'phi' and ln.a[0] in q.loops else None
        ps = [p for p in pushes(q, k)[0]] if k else []
        if not R.check(len(ps) == 1 and not pushes(q, k)[1] and ps[0].h in q.loops and q.chain(ps[0].blk)[1:] == [ln.a[0]], R_LEN, r, '%s are not copied polygon by polygon' % r): continue
        p = ps[0]; h = p.h; H = ln.a[0]
        pos, first, bound, why = passes(q, h)
        if not R.check(why is None and every_pass(q, p.blk, h) and every_pass(q, h, H) and num(first) == 0 and is_nvp(q, bound), R_LEN, r + ' / corners', '%s: %s corners are copied per polygon' % (r, shown(bound)[:60] if bound is not None else why)): continue
        t = mk('sym', 't'); at = source(q, subst(p.val, {pos: t})); ok = False
        inside = lambda y: from_poly(padd(padd(poly(y), poly(t)), pmul(poly(bound), pconst(off))))
        for y in q.header_phis(H):
            e, bk = q.entry_args(y)
            if e is None or any(num(nf(x)) != 0 for x in e) or not bk: continue
            st = [from_poly(padd(poly(x), poly(y), -1)) for b in bk for c, x in flat_cases(q, nf(b)) if not unsat(c)]
            if not st or not all(is_2nvp(q, d) for d in st): continue
            if not (at and at[0] == 'arr' and at[1] == root + ('polygons', '[]') and same(at[2], inside(y))): continue
            # every whole polygon is visited: the loop ends when fewer than 2 nvp entries are left
            ok = True
            for b, s in ways_out(q, H):
                c = B.AND(q.facts(b), q.edge(b, s))
                if unsat(c) or dead_end(q, s): continue
                ok = ok and any(implies(c, B.NOT(B.var(a))) and whole_length(q, from_poly(padd(padd(poly(y), poly(st[0])), poly(a.a[0]), -1)), bound, n) for a in fatoms(c) if a.op == 'le0')
        if not ok:          # or the polygons are counted
            c, c0, cn, why = passes(q, H)
            ok = why is None and num(c0) == 0 and same(cn, n) and at and at[0] == 'arr' and at[1] == root + ('polygons', '[]') and same(at[2], inside(from_poly(pmul(pmul(poly(c), poly(bound)), pconst(2)))))
        R.check(ok, R_LEN, r + ' / order', '%s do not take all their entries in order from the polygons (%s)' % (r, shown(p.val)[:80]))
def whole_length(q, ln, nvp, n):
    """ln is the length of the polygons, cut to 2 nvp entries for each of the n polygons"""
    want = nf(from_poly(pmul(pmul(poly(nvp), poly(n)), pconst(2)))); olds = [x for c, x in flat_cases(q, nf(ln)) if not same(x, want)]
    return len(olds) < len(flat_cases(q, nf(ln))) and all(at_most(q, nf(ln), o, want) for o in olds) and len({id(o) for o in olds}) <= 1
def is_2nvp(q, n):
    p = poly(n); return len(p) == 1 and list(p.values())[0] == 2 and all(len(m) == 1 and m[0][1] == 1 and is_nvp(q, m[0][0]) for m in p)
def equal_lengths(q, a, b, keys, seen=None):
    """the two lengths are always the same (both lists grow and shrink together)"""
    seen = {} if seen is None else seen
    a, b = nf(subst(a, seen)), nf(subst(b, seen))
    if same(a, b): return True
    if a.op == 'phi' and b.op == 'phi' and a.a[0] == b.a[0]:
        xs, ys = q.g.phi_args(a), q.g.phi_args(b); s = dict(seen); s[b] = a
        if not (xs and set(xs) == set(ys)): return False
        # in the first pass as on entry; later assumed for the pass before
        if all(equal_lengths(q, xs[p], ys[p], keys, s) for p in xs): seen.update(s); return True
        return False
    def one(v): return q.cases(v) or [(True, v)] if v.op == 'phi' else [(True, v)]
    ca, cb = one(a), one(b)
    if len(ca) * len(cb) <= 1: return False
    # whatever a condition asks about one list, it may as well ask about the other
    for c, y in cb:
        for at in fatoms(c) if not isinstance(c, bool) else ():
            for z in walk_nodes(at):
                if z.op == 'phi' and z.a[1] == keys[1] and z not in seen:
                    w = mk('phi', z.a[0], keys[0], z.a[2])
                    if q.g.phi_args(w) and equal_lengths(q, w, z, keys, seen): seen[z] = w
    for c, x in ca:
        for d, y in cb:
            if unsat(B.AND(q.fsubst(c, seen), q.fsubst(d, seen))): continue
            if not equal_lengths(q, x, y, keys, seen): return False
    return True
SUBMESH = ('base_vertex_index', 'vertex_count', 'base_triangle_index', 'triangle_count')
class Sub:
    def __init__(s, e, field, val): s.blk = e.blk; s.field = field; s.val = val; s.idx = e.a[1][-1]
def detail(P, R):
    """detail triangles, flags, submeshes"""
    bd = find1(P, R, 'new', 'DetailNavmesh', 'rerecast'); bp = [b['path'] for b in P.all if b['crate'] == 'rerecast' and b.get('name') == 'build_poly_detail']
    if not R.check(bd and len(bp) == 1, R_DETAIL, 'anchors', 'the functions that build a detail mesh no longer exist'): return
    ops = {b['path'] for b in P.all if b['crate'] == 'rerecast' and b.get('name') == 'get_height_data'}
    q = analyse(P, bd, ops | {bp[0]})
    roots = {e.a[0][:-2] for e in q.events('store') if e.a[0][-2:] == ('triangle_flags', '[]')}
    if not R.check(len(roots) == 1, R_DETAIL, 'roots', 'the flags of %d detail meshes are written' % len(roots)): return
    root = roots.pop(); grown = {}; H = None
    subs = [Sub(e, e.a[0][-1], e.a[2]) for e in q.events('store') if e.a[0][:-1] == root + ('meshes', '[]')]
    for e in q.events('store'):
        if e.a[0] == root + ('meshes', '[]'): subs += [Sub(e, f, fld(nf(e.a[2]), f)) for f in SUBMESH]
    hs = {q.loop(e.blk) for e in subs}
    if not R.check(len(hs) == 1 and None not in hs, R_DETAIL, 'submeshes', 'submeshes are not written polygon by polygon'): return
    H = hs.pop()
    for l in ('vertices', 'triangles', 'triangle_flags'):
        ps, oth = pushes(q, root + (l,))
        if not R.check(len(ps) == 1 and not oth and ps[0].h in q.loops and q.chain(ps[0].blk)[1:] == [H] and every_pass(q, ps[0].blk, ps[0].h) and every_pass(q, ps[0].h, H), R_DETAIL, l + ' / appended', '%s are not appended for every polygon' % l): return
        pos, first, bound, why = passes(q, ps[0].h)
        if not R.check(why is None and num(first) == 0, R_DETAIL, l + ' / all', 'not all %s of a polygon are appended: %s' % (l, why)): return
        at = source_list(subst(ps[0].val, {pos: mk('sym', 't')}))
        grown[l] = (bound, at)
    calls_ = [e for e in q.events('call') if e.a[1].get('decl') == bp[0] or strip_gen(e.a[0]).endswith('build_poly_detail')]
    if not R.check(len(calls_) == 1 and q.loop(calls_[0].blk) == H, R_DETAIL, 'call', 'the polygons\' details are not built one by one'): return
    # the lists the callee fills
    arg = {}
    for l in ('triangles', 'triangle_flags'):
        b = grown[l][0]
        n = b.a[0] if b.op == 'fld' and b.a[1] == '#len' else None
        if R.check(n is not None and n.op == 'after' and grown[l][1] is n, R_DETAIL, l + ' / from', '%s are appended from %s' % (l, shown(b)[:80])): arg[l] = n.a[1]
    vs = {e.field: e for e in subs}
    want = {'base_vertex_index': ('vertices', None), 'vertex_count': (None, 'vertices'), 'base_triangle_index': ('triangles', None), 'triangle_count': (None, 'triangles')}
    for f, (base, cnt) in want.items():
        es = [e for e in subs if e.field == f]
        if not R.check(len(es) == 1 and every_pass(q, es[0].blk, H), R_DETAIL, f, 'the submesh\'s %s is not set for every polygon' % f): continue
        v = uncast(es[0].val)
        if base:
            ok = v.op == 'phi' and v.a[0] == H and v.a[1] == root + (base, '#len')
        else: ok = same(v, grown[cnt][0])
        R.check(ok, R_DETAIL, f, 'the submesh\'s %s is %s' % (f, shown(v)[:80]))
        R.check(same(es[0].idx, vs['base_vertex_index'].idx) if 'base_vertex_index' in vs else False, R_DETAIL, f + ' / slot', 'the fields of a submesh go to different slots')
    # one submesh for every polygon
    idx = nf(subs[0].idx); ind = q.induction(idx) if idx.op == 'phi' else None
    alloc = [e for e in q.events('store') if e.a[0] == root + ('meshes',) and nf(e.a[2]).op == 'vecfill']
    if R.check(len(alloc) == 1 and ind is not None and num(ind[0]) == 0 and ind[1] == 1 and idx.a[0] == H, R_DETAIL, 'slots', 'submeshes are not numbered from 0'):
        n = nf(nf(alloc[0].a[2]).a[1]); t = mk('sym', 't'); m = counters(q, H, t); more = q.formula(mk('lt', t, n))
        ok = True
        for b, s in ways_out(q, H):
            c = B.AND(q.facts(b), q.edge(b, s))
            if unsat(c) or dead_end(q, s) or fails(q, H, s): continue
            ok = ok and implies(q.fsubst(c, m), B.NOT(more))
        R.check(ok, R_DETAIL, 'all polygons', 'the loop over the polygons ends before all %s submeshes are written' % shown(n)[:60])
        R.check(n.op == 'idiv' and n.a[0].op == 'fld' and n.a[0].a[1] == '#len' and n.a[0].a[0].op == 'fld' and n.a[0].a[0].a[1] == 'polygons' and n.a[1].op == 'fld' and n.a[1].a[1] == NVP, R_DETAIL, 'number', 'there are %s submeshes' % shown(n)[:80])
    # what the callee hands back
    if len(arg) == 2:
        c = analyse(P, bp[0], set()); rets = c.events('ret')
        for e in rets:
            st = c.g.at_ret[e.blk]
            k = {l: (('O', mk('param', c.g.uid, arg[l] + 1)), '#len') for l in arg}
            a, b = (c.g.rd(st, k[l], ()) for l in ('triangles', 'triangle_flags'))
            R.check(equal_lengths(c, a, b, (k['triangles'], k['triangle_flags'])), R_DETAIL, 'same number', 'a polygon\'s detail can have %s triangles and %s flags' % (shown(nf(a))[:80], shown(nf(b))[:80]))
    R.floor(R_DETAIL, 12)
def fails(q, h, s):
    """only errors are returned after loop h is left this way"""
    ok = [c for c, v, e in results(q) if v.op == 'agg' and v.a[2] == 'Ok' and not unsat(c)]
    return ok and all(any(at.op == 'exit' and at.a[1:] == (h, s) and implies(c, B.NOT(B.var(at))) for at in fatoms(c)) or not any(at.op == 'exit' and at.a[1] == h for at in fatoms(c)) and cut_before(q, c, h) for c in ok)
def cut_before(q, c, h):
    """a result from before the loop"""
    return any(unsat(B.AND(c, q.facts(h))) for _ in (0,))
def uncast(v):
    v = nf(v)
    while v.op in ('toint', 'cast'): v = nf(v.a[1])
    return v
def source_list(v):
    """the list all of a value is read from, at position t"""
    v = nf(v)
    if v.op == 'arr':
        ls = [source_list2(x) for x in v.a]
        return ls[0] if ls and ls[0] is not None and all(x is ls[0] for x in ls) else None
    return source_at(v)
def source_at(v):
    return nf(v.a[0]) if v.op in ('elem', 'sel') and (v.a[1] if v.op == 'elem' else v.a[1][-1]).op == 'sym' else None
def source_list2(v):
    v = nf(v)
    return source_at(nf(v.a[0])) if v.op in ('elem', 'sel') else None
