from lib import *
from units import *
EXPLAIN = ('Dimension inference over the fully inlined value graph of every stage: each number gets an unknown unit in powers of voxel height and world length (horizontal cells index '
           'the grid and count as plain numbers), sums, comparisons and joins equate units, products and quotients combine them, and the cell sizes, the bounds and the inputs and outputs '
           'of the stages have the unit they stand for. The linear system is solved exactly; every equation it contradicts is a mixed unit.')
R_MIX = 'units agree wherever quantities meet'
R_OUT = 'inputs and outputs of a stage have their unit'
R_AXIS = 'vertical positions move by cell heights, horizontal ones by cell sizes'
R_SEEN = 'the stage handles sizes of cells or spans'
# (function, type) -> {path of an input or output: unit}; the last names of a path decide
W, C, Y = WORLD, CELL, VOX
XYZ = lambda p: {p + '.x': C, p + '.y': Y, p + '.z': C}
ALLW = lambda p: {p + '.x': W, p + '.y': W, p + '.z': W}
STAGES = [
 ('build', 'NavmeshConfigBuilder', {'agent_height': W, 'agent_radius': W, 'agent_max_climb': W, 'edge_max_len': W, 'edge_max_error': C, 'region_min_size': C, 'region_merge_size': C, 'tile_size': C,
   'detail_sample_dist': C, 'detail_sample_max_error': Y},
  {'walkable_height': Y, 'walkable_climb': Y, 'walkable_radius': C, 'max_edge_len': C, 'max_simplification_error': C, 'min_region_area': C, 'merge_region_area': C, 'width': C, 'height': C, 'border_size': C, 'tile_size': C,
   'detail_sample_dist': W, 'detail_sample_max_error': W, 'cell_size': W}, 12),
 ('build', 'HeightfieldBuilder', {}, {'Ok.0.width': C, 'Ok.0.height': C}, 4),
 ('rasterize_triangles', 'Heightfield', ALLW('vertices'), {}, 60),
 ('filter_low_hanging_walkable_obstacles', 'Heightfield', {}, {}, 4),
 ('filter_ledge_spans', 'Heightfield', {}, {}, 15),
 ('filter_walkable_low_height_spans', 'Heightfield', {}, {}, 4),
 ('into_compact', 'Heightfield', {}, {'Ok.0.spans.[].y': Y, 'Ok.0.aabb.max.y': W, 'Ok.0.walkable_height': Y, 'Ok.0.walkable_climb': Y}, 20),
 ('erode_walkable_area', 'CompactHeightfield', {}, {}, 35),
 ('mark_convex_poly_area', 'CompactHeightfield', {'max_y': W, 'min_y': W, 'vertices.x': W, 'vertices.y': W}, {}, 25),
 ('build_distance_field', 'CompactHeightfield', {}, {}, 50),
 ('build_regions', 'CompactHeightfield', {}, {}, 150),
 ('build_contours', 'CompactHeightfield', {}, {'width': C, 'height': C, 'aabb.min.x': W, 'aabb.min.z': W, 'aabb.max.x': W, 'aabb.max.z': W}, 90),
 ('into_polygon_mesh', 'ContourSet', XYZ('contours.vertices'), {'Ok.0.vertices.[].x': C, 'Ok.0.vertices.[].y': Y, 'Ok.0.vertices.[].z': C, 'Ok.0.cell_size': W}, 600),
 ('new', 'DetailNavmesh', {**XYZ('vertices'), 'arg3': W, 'arg4': W}, {'Ok.0.vertices.[].x': W, 'Ok.0.vertices.[].y': W, 'Ok.0.vertices.[].z': W}, 450)]
def anchors(table):
    def f(ns, given):
        ns = [x for x in ns if x not in ('[]', '0', '*')]
        if not ns: return None
        if ns[-1] == 'cell_size': return W
        if ns[-1] == 'cell_height': return (-1, 1)
        if 'aabb' in ns and ns[-1] in ('x', 'y', 'z'): return W
        if 'allocated_spans' in ns and ns[-1] in ('min', 'max'): return Y
        if ns[-2:] == ['spans', 'y']: return Y
        for k, u in table.items() if given else ():
            k = [x for x in k.split('.') if x not in ('0',)]
            if ns == k: return u
        return None
    return f
def run(P, R):
    done = 0
    for name, ty, ins, outs, floor in STAGES:
        path = find1(P, R, name, ty, 'rerecast')
        if not path: continue
        q = analyse(P, path); tag = '%s::%s' % (ty, name)
        I = Infer(q, anchors(ins))
        I.run()
        for e in q.events('ret'):
            for o, u in outs.items():
                p = split(o)
                v = I.U(e.a[0], p); I.S.equal(v, unit(*u), ('output ' + o, e.a[0]))
                I.drain()
        seen = set()
        for (op, n), x, y in I.S.bad:
            k = (op, shown(nf(n) if op not in ('join', 'store', 'after', 'array', 'anchor') and not op.startswith(('stored', 'output')) else n, 3))
            if k in seen: continue
            seen.add(k)
            rule = R_OUT if op.startswith('output') else R_MIX
            R.fail(rule, '%s: %s' % (tag, op if op.startswith('output') else stable(op, n, x, y)), '%s: %s: %s against %s, at %s' % (tag, op, named(x), named(y), shown(n, 4)[:250]))
        for o, u in outs.items():
            if not any(op == 'output ' + o for (op, n), x, y in I.S.bad): R.ok(R_OUT, '%s: %s' % (tag, o))
        if I.sites:
            for i in range(I.sites - len(I.S.bad)): R.ok(R_MIX, '%s: %d' % (tag, i))
        axes(R, I, tag)
        got = I.anchored
        R.check(I.sites >= floor // 2, R_SEEN, tag, '%s: only %d places where quantities meet were found' % (tag, I.sites))
        R.note(tag, {'equations': I.S.eqs, 'unknowns': I.S.n, 'places': I.sites, 'anchored': {str(named(unit(*k))): sorted(v) for k, v in got.items()}})
        done += 1
    R.floor(R_SEEN, len(STAGES))
def axes(R, I, tag):
    """within one sum: no bound in y together with multiples of the cell size, none in x or z with multiples of the cell height"""
    seen = set()
    for n in sorted(I.seen, key=lambda n: n.id):
        if n.op not in ('add', 'sub', 'flt', 'lt', 'min', 'max'): continue
        ps = [poly(n)] if n.op in ('add', 'sub') else [poly(x) for x in n.a[:2]]
        bound = set(); size = set()
        for p in ps:
            for m in p:
                if len(m) == 1 and m[0][1] == 1:
                    ns = [x for x in I.names(m[0][0], ()) if x not in ('*', '[]')]
                    if 'aabb' in ns and ns[-1] in ('x', 'y', 'z'): bound.add(ns[-1])
                for a, e in m:
                    ns = I.names(a, ())
                    if e == 1 and ns and ns[-1] in ('cell_size', 'cell_height'): size.add(ns[-1])
        if not bound or not size: continue
        bad = ('y' in bound and 'cell_size' in size) or (bound & {'x', 'z'} and 'cell_height' in size)
        k = '%s: %s with %s' % (tag, ''.join(sorted(bound)), ' '.join(sorted(size)))
        if not bad: R.ok(R_AXIS, k); continue
        if k in seen: continue
        seen.add(k); R.fail(R_AXIS, k, '%s adds multiples of %s to a position in %s: %s' % (tag, ' and '.join(sorted(size)), ', '.join(sorted(bound)), shown(nf(n), 4)[:250]))
def split(o):
    """Ok.0.vertices.[].x -> path in the returned value"""
    out = []
    for x in o.split('.'): out.append(x)
    if out[0] == 'Ok': out = ['Ok.0'] + out[2:]
    return tuple(out)
def stable(op, n, x, y):
    """names a place by what meets there: the units and the fields and arguments involved, not the numbers the analysis gives its unknowns"""
    import re
    t = shown(nf(n) if op in ('compare', 'add', 'sub', 'min', 'max', 'neg') else n, 6)
    t = re.sub(r'phi\d+:[\w.]*', '?', t)
    names = sorted(set(re.findall(r'arg\d+|[a-z_]{4,}', t)) - {'tofloat', 'toint', 'cast', 'fdiv', 'floor', 'ceil', 'after', 'const'})
    return '%s of %s and %s: %s' % (op, *sorted((named(x), named(y))), ' '.join(names)[:80])
