import ranges
from lib import *
from checks.c05 import fle
EXPLAIN = ('Panic analysis of everything that handles received data (deserialize, the conversions into meshes, images and materials, the editor\'s loading observer and the request handler), inlined to a '
           'value graph: every index, slice, unwrap, panic, overflowing arithmetic, division and every call of a library function that panics on bad data is an obligation discharged by the path facts that guard it.')
ENTRIES = [('deserialize', None, 'bevy_rerecast_editor_integration'), ('into_mesh', 'SerializedMesh', None), ('into_image', 'SerializedImage', None),
           ('into_standard_material', 'SerializedStandardMaterial', None), ('fetch_navmesh_input', None, None), ('get_navmesh_input', None, None)]
# library functions that panic depending on the data they are given
DENY = re.compile(r'(Option|Result)(::<.*>)?::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked)$|core::ops::index::Index(Mut)?::index|::index(_mut)?$|core::panicking|::panic_fmt|'
                  r'(Vec|VecDeque|String)(::<.*>)?::(remove|swap_remove|insert|split_off|drain|truncate_front)$|slice::<impl \[T\]>::(split_at|split_at_mut|swap|copy_from_slice|clone_from_slice|chunks|chunks_exact|windows|rotate_left|rotate_right|'
                  r'copy_within|select_nth_unstable|as_chunks)$|str::<impl str>::(split_at)$|RefCell(::<.*>)?::(borrow|borrow_mut)$|Iterator::step_by$|::(world|resource|resource_mut|spawn_batch|entity|entity_mut|query|single)$')
WORLD = re.compile(r'bevy_ecs::world::World::(resource|resource_mut|resource_ref|entity|entity_mut|non_send_resource|non_send_resource_mut)$|Query(::<.*>)?::(single|single_mut|many|iter_many_unique)$')
FORMAT = re.compile(r'Mesh::(try_)?(insert_attribute|with_inserted_attribute)$')
R_IDX = 'an index is within its list'
R_PAN = 'nothing received is unwrapped'
R_CALL = 'no library function that panics on bad data is given unchecked data'
R_FMT = 'attribute values have the format of their attribute'
R_NUM = 'arithmetic on received numbers cannot overflow'
def org_fn(e):
    o = getattr(e, 'org', None)
    return short(o[0]) if o else '?'
def obligations(P, R, q, label):
    n = 0
    rg = ranges.Ranges(P, q)
    for e in q.events('index'):
        base, i, kind, ln = e.a[:4]
        if kind == 'model': continue
        F = q.facts(e.blk)
        if kind == 'range':
            n += 1
            if hasattr(i, 'op') and (i.op == 'agg' and 'RangeFull' in str(i.a[:2])): R.ok(R_IDX, '%s whole range' % label); continue
            lo, hi = ln
            ok = implies(F, fle(padd(poly(lo), poly(hi), -1))) and bounded(q, F, base, hi)
            R.check(ok, R_IDX, '%s range' % label, '%s takes the part %s..%s of %s without checking that it lies within' % (label, shown(lo)[:60], shown(hi)[:60], shown(base)[:100])); continue
        n += 1
        ok = hasattr(ln, 'op') and implies(F, fle(padd(padd(poly(i), pconst(1)), poly(ln), -1)))
        if not ok and hasattr(ln, 'op'):
            x, y = rg.of(nf(i), e.blk, 10), rg.of(nf(ln), e.blk, 10)
            ok = x[1] < y[0]
        R.check(ok, R_IDX, '%s: %s' % (label, base_name(base)), '%s (in %s) indexes %s with %s, which nothing shows to be below its length' % (label, org_fn(e), base_name(base), shown(nf(i))[:120]))
    for e in q.events('assert'):
        cond, exp, kind = e.a
        if kind not in ('bounds', 'div0', 'rem0'): continue
        F = q.facts(e.blk); g = q.formula(cond)
        n += 1
        ok = implies(F, g if exp else B.NOT(g))
        if kind == 'bounds':
            c = nf(cond)
            ln = [x for x in walk_nodes(c) if x.op == 'fld' and x.a[1] == '#len']
            R.check(ok, R_IDX, '%s: %s' % (label, base_name(ln[0].a[0]) if ln else 'array'), '%s (in %s) takes an element although nothing shows that %s' % (label, org_fn(e), shown(c)[:160]))
        else: R.check(ok, R_NUM, '%s divisor' % label, '%s (in %s) divides by a number nothing shows not to be zero (%s)' % (label, org_fn(e), shown(nf(cond))[:120]))
    for e in q.events('panic'):
        F = q.facts(e.blk)
        if unsat(F): continue
        n += 1
        R.fail(R_PAN, '%s %s' % (label, str(e.a[0]).split('::')[-1]), '%s panics when %s' % (label, showf(F)[-300:]))
    for e in q.events('call'):
        name, ci = e.a[0], e.a[1]
        if unsat(q.facts(e.blk)): continue
        nm = strip_gen(name)
        if FORMAT.search(nm):
            n += 1
            aty = ci.get('_aty') or []
            vt = aty[-1] if aty else ('?',)
            if 'VertexAttributeValues' not in str(vt): R.ok(R_FMT, '%s: %s' % (label, str(vt)[:60])); continue
            F = q.facts(e.blk); attr, vals = e.a[2][-2], e.a[2][-1]
            ok = False
            vs = [nf(vals)]
            ats = [nf(attr)]
            for a in fatoms(F):
                if a.op == 'eq0' and implies(F, B.var(a)):
                    ns = list(walk_nodes(a))
                    if any(x is v for v in vs for x in ns) and any(x.op == 'fld' and x.a[1] == 'format' or x.op == 'sel' and 'format' in str(x.a) for x in ns): ok = True
            R.check(ok, R_FMT, label, '%s inserts values of any format under an attribute of a fixed format, which panics when they differ' % label); continue
        if (DENY.search(nm) or WORLD.search(nm)) and not nm.startswith(('bevy_ecs::system::commands::', 'tracing')):
            if nm.endswith(('::entity', '::query', '::single', '::world')) and not WORLD.search(nm): continue
            if 'tracing_core::field::Field' in str((ci.get('_aty') or ['?'])[0]): continue
            n += 1
            R.fail(R_CALL, '%s -> %s' % (label, nm.split('::')[-1]), '%s (in %s) calls %s(%s), which panics on bad data' % (label, org_fn(e), nm, ', '.join(shown(nf(x))[:60] for x in e.a[2][:3])))
    for e in q.events('arith'):
        ty, v = e.a
        n += 1
        x = rg.of(nf(v), e.blk, 12); t = ranges.type_range(ty)
        if x[0] >= t[0] and x[1] <= t[1] or counter(q, nf(v), e.blk): R.ok(R_NUM, label); continue
        R.fail(R_NUM, '%s %s' % (label, ty), '%s computes %s, which may not fit %s' % (label, shown(nf(v))[:120], ty))
    return n
def base_name(b):
    s = shown(b)
    fs = [x for x in re.findall(r'\.([a-z_]+)', s) if x]
    if b.op in ('ref', 'sref') and isinstance(b.a[0], tuple):
        fs = [x for x in b.a[0] if isinstance(x, str) and x not in ('*', '[]')] or fs
    return fs[-1] if fs else 'a list'
def bounded(q, F, base, hi):
    ls = [x for a in fatoms(F) for x in walk_nodes(a) if x.op == 'fld' and x.a[1] == '#len']
    return any(implies(F, fle(padd(poly(hi), poly(l), -1))) for l in ls) or (hi.op == 'fld' and hi.a[1] == '#len')
def counter(q, v, b):
    """counts elements of something held in memory: position or length plus a constant"""
    p = {m: c for m, c in poly(v).items() if m != ()}
    if len(p) != 1: return False
    m, c = next(iter(p.items()))
    if c != 1 or len(m) != 1: return False
    n = m[0][0]
    if poly(v).get((), 0) not in (1, 2): return False
    if n.op == 'fld' and n.a[1] == '#len': return True
    if n.op == 'phi':
        k = n.a[1]
        if isinstance(k, tuple) and k and k[-1] in ('pos', '#len'): return True
        i = q.induction(n)
        return bool(i and i[1] == 1 and num(i[0]) in (0, 1))
    return False
def run(P, R):
    done = set(); todo = []
    for name, ty, crate in ENTRIES:
        c = [x for x in find(P, name, ty, crate) if '::_::' not in x]
        if c: todo.append(c[0])
        else: R.fail('anchor', (ty + '::' if ty else '') + name, 'the function %s this property is about no longer exists' % name)
    files = {P.bodies[f]['file'] for f in todo if f in P.bodies}
    # code that deserialising calls back into
    for b in user_bodies(P):
        if b.get('impl_trait') and strip_gen(b['impl_trait']).split('::')[-1] in ('Deserialize', 'Visitor', 'DeserializeSeed') and not b.get('derived') and 'SystemParam' not in b['path']: todo.append(b['path'])
    total = 0
    while todo:
        f = todo.pop(0)
        if f in done or f not in P.bodies: continue
        done.add(f)
        q = analyse(P, f)
        k = obligations(P, R, q, short(f).split('::')[-1] if '{closure' not in f else short(f).split('::')[-1] + ' closure')
        total += k
        R.ok('functions analysed', short(f))
        inl = {l[2] for l in q.f.locals if len(l) > 2}
        # closures and functions handed to library code instead of being called directly
        for g in inl | {f}:
            for p in P.bodies:
                if p.startswith(g + '::{closure') and p not in inl and P.bodies[p]['crate'] != 'models' and not P.bodies[p].get('expn'): todo.append(p)
    R.note('functions_analysed', sorted(short(x) for x in done))
    R.floor('functions analysed', 6); R.floor(R_FMT, 1)
