"""Columns of a compact heightfield: connections, neighbour lookups and the columns spans lie in."""
from lib import *
OFFX = (-1, 0, 1, 0); OFFZ = (0, 1, 0, -1)

def field_read(n):
    """n reads a field of an element -> (field path tuple, container version, idxs) or None"""
    path = ()
    while n.op == 'fld':
        path = (n.a[1],) + path; n = n.a[0]
    if n.op == 'elem': return path, n.a[0], (n.a[1],)
    if n.op == 'sel':
        # the version may be of a field below the element
        v, idxs = n.a
        k = ver_key(v)
        if k and '[]' in k:
            last = len(k) - 1 - k[::-1].index('[]')
            path = tuple(k[last + 1:]) + path
        return path, v, idxs
    return None
def ver_key(v):
    while v.op == 'store': v = v.a[0]
    if v.op == 'phi': return v.a[1]
    if v.op == 'lift': return v.a[1]
    if v.op == 'after': return ver_key(v.a[4]) if len(v.a) > 4 and isinstance(v.a[4], N) else None
    return None
def con_atom(n):
    """63 & (spans[j].data >> 6*dir) -> (j, dir)"""
    if n.op != 'and': return None
    a, b = n.a
    if num(a) != 63: a, b = b, a
    if num(a) != 63: return None
    if b.op == 'idiv':
        d, c = b.a; k = num(c)
        if k is None or k <= 0 or k & (k - 1): return None
        sh = k.bit_length() - 1
        if sh % 6: return None
        dr = const(sh // 6)
    elif b.op == 'shr':
        d = b.a[0]; p = poly(b.a[1])
        if any(c % 6 for c in p.values()): return None
        dr = from_poly({m: c / 6 for m, c in p.items()})
    else:
        d = b; dr = const(0)
    d = nf(d)
    fr = field_read(d)
    if not fr or not fr[0] or fr[0][-1] != 'data': return None
    return nf(fr[2][-1]), dr
def cell_index(n):
    """cells[C].index -> C"""
    fr = field_read(n)
    if fr and fr[0] and fr[0][-1] == 'index' and fr[1] is not None:
        if is_cells(n): return nf(fr[2][-1])
    return None
def cell_count(n):
    fr = field_read(n)
    if fr and fr[0] and fr[0][-1] == 'count' and is_cells(n): return nf(fr[2][-1])
    return None
def is_cells(n):
    while n.op in ('fld', 'elem', 'sel', 'store', 'lift', 'after'):
        if n.op == 'fld' and n.a[1] == 'cells': return True
        if n.op == 'lift' and 'cells' in n.a[1]: return True
        n = n.a[0] if n.op != 'after' else (n.a[4] if isinstance(n.a[-1], N) else n.a[-1])
        if not isinstance(n, N): return False
    return n.op == 'phi' and 'cells' in n.a[1]

def split(p):
    """poly -> (cell index atoms with their column, con atoms, rest)"""
    cells, cons, rest = [], [], {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            C = cell_index(a)
            if C is not None: cells.append((C, c, a)); continue
            k = con_atom(a)
            if k: cons.append((k, c, a)); continue
        rest[m] = c
    return cells, cons, rest
def neighbour(n):
    """n = cells[C].index + con(j, dir) -> (C, j, dir, con atom) ; 'bad' if a connection is used in another sum"""
    p = poly(nf(n))
    cells, cons, rest = split(p)
    if not cons: return None
    if len(cons) == 1 and len(cells) == 1 and not rest and cons[0][1] == 1 and cells[0][1] == 1:
        return cells[0][0], cons[0][0][0], cons[0][0][1], cons[0][2]
    return 'bad'

def width_atom(q, C):
    """candidates for the row length in a column index: atoms that multiply something"""
    c = set()
    for m, k in poly(C).items():
        for a, e in m:
            if e == 1 and any(x.op == 'fld' and x.a[1] == 'width' for x in [a]): c.add(a)
            if a.op == 'phi' and a.a[1][-1] == 'width': c.add(a)
    return c

def expand_phis(q, p, cond=True, d=4):
    """rewrite non-loop phis in a polynomial by their cases -> [(condition, poly)]"""
    out = []
    def go(p, cond, d):
        for m in p:
            for a, e in m:
                if a.op == 'phi' and d:
                    cs = q.cases(a)
                    if cs:
                        for gd, v in cs:
                            g2 = B.AND(cond, gd)
                            if g2 is False or unsat(g2): continue
                            go(poly(subst(from_poly(p), {a: v})), g2, d - 1)
                        return
                # phis inside an atom (an index expression, say)
        out.append((cond, p))
    go(p, cond, d)
    return out

def offset_at(q, p, dirn, k, cond=True):
    """value of polynomial p when direction dirn is k: list of polynomials over the possible cases"""
    if num(dirn) is not None:
        sub = {}
    else: sub = {dirn: const(k)}
    r = []
    for gd, x in expand_phis(q, p):
        if sub:
            gd = q.fsubst(gd, sub)
            if unsat(gd): continue
            # direction nodes may themselves be expressions
            x = poly(subst(from_poly(x), sub))
        r.append((gd, x))
    return r

PERMUTE = {'copy_within', 'swap', 'reverse', 'rotate_left', 'rotate_right', 'sort', 'sort_by', 'sort_unstable', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'truncate', 'retain', 'dedup', 'drain', 'remove', 'swap_remove'}
class Cols:
    def __init__(self, q):
        self.q = q; self.cond = True; self.open = []; self.done = {}; self.why = []
        self.sites = {}
        for e in q.events('store'):
            self.sites.setdefault((e.a[2]), []).append(e.blk)
        self.lt = set()
    def base_of(self, cell_atom_):
        v = field_read(cell_atom_)[1]
        while v.op in ('store', 'lift', 'after'):
            if v.op == 'lift': break
            v = v.a[0]
        if v.op == 'fld' and v.a[1] == 'cells': return v.a[0]
        return None
    def width(self, cell_atom_):
        b = self.base_of(cell_atom_)
        return nf(fld(b, 'width')) if b is not None else None

    def fail(self, msg):
        if len(self.why) < 12: self.why.append(msg)
        return False
    def prove(self, j, C, blk, W, d=12):
        """span number j lies in the column with cell number C (polynomial) when blk executes"""
        j = nf(j); Cn = from_poly(C)
        if j.op == 'undef' or d == 0: return j.op == 'undef' or self.fail('too deep: %s' % show(j, 4))
        if (j, Cn) in self.open: return True
        nb = neighbour(j)
        if nb and nb != 'bad':
            if same(nb[0], Cn): return True
            for gd, x in expand_phis(self.q, padd(poly(nb[0]), C, -1)):
                if x and not unsat(B.AND(B.AND(gd, self.cond), self.q.facts(blk))):
                    return self.fail('%s lies in column %s, not %s' % (show(j, 4), show(nb[0], 6), show(Cn, 6)))
            return True
        r = self.q.range_of(j, blk)
        if r:
            lo, hi, st, h = r
            cells, cons, rest = split(poly(lo))
            if len(cells) == 1 and not cons and not rest and cells[0][1] == 1:
                ca = cells[0][2]
                if not same(cells[0][0], Cn):
                    return self.fail('%s runs over column %s, not %s' % (show(j, 4), show(cells[0][0], 6), show(Cn, 6)))
                dlt = padd(poly(hi), poly(lo), -1)
                ok = len(dlt) == 1 and all(len(m) == 1 and m[0][1] == 1 and c == 1 and cell_count(m[0][0]) is not None and same(cell_count(m[0][0]), Cn) for m, c in dlt.items())
                return ok or self.fail('the loop over the column %s ends at %s' % (show(Cn, 5), show(hi, 5)))
        if j.op == 'phi' and j.a[2] == self.q.g.uid and j.a[0] in self.q.loops:
            return self.inductive(j, C, blk, W, d)
        if j.op == 'phi':
            cs = self.q.cases(j)
            if cs:
                ok = True
                for gd, v in cs:
                    g = B.AND(gd, self.q.facts(j.a[0]))
                    if unsat(g) or v.op == 'undef': continue
                    for g2, c in self.case_with(C, j, gd):
                        old = self.cond; self.cond = B.AND(B.AND(gd, g2), old)
                        ok = self.prove(v, c, self.case_block(j, v, blk), W, d - 1) and ok
                        self.cond = old
                return ok
        return self.record(j, C, blk, W, d)
    def case_block(self, phi, v, blk):
        for p, x in self.q.g.phi_args(phi).items():
            if x is v or nf(x) is nf(v): return p
        return blk
    def case_with(self, C, phi, gd):
        """rewrite the phis of C that join at the same block, under the same case"""
        out = []
        for g2, c in expand_phis(self.q, C):
            if not unsat(B.AND(gd, g2)): out.append((g2, c))
        return out
    def inductive(self, j, C, blk, W, d):
        q = self.q; h = j.a[0]
        self.open.append((j, from_poly(C)))
        ok = True
        try:
            ents = [p for p in q.preds(h) if p not in q.loops[h]]
            for p in ents + q.latches(h):
                bm = {}
                for ph in q.header_phis(h):
                    v = q.g.phi_args(ph).get(p)
                    if v is not None: bm[ph] = v
                v = nf(q.g.phi_args(j).get(p) or subst(j, bm))
                if v.op == 'undef': continue
                C2 = poly(subst(from_poly(C), bm))
                cs = q.cases(v) if v.op == 'phi' and v.a[0] not in q.loops else None
                fc = B.AND(q.facts(p), q.edge(p, h))
                for gd, x in (q.values(v) if cs else [(True, v)]):
                    if x.op == 'undef' or unsat(B.AND(fc, gd)): continue
                    for g2, c in expand_phis(q, C2):
                        if unsat(B.AND(B.AND(gd, g2), fc)): continue
                        old = self.cond; self.cond = B.AND(B.AND(gd, g2), fc)
                        ok = self.prove(x, c, p, W, d - 1) and ok
                        self.cond = old
        finally: self.open.pop()
        return ok
    # ----- spans remembered in a list together with their coordinates
    def record(self, j, C, blk, W, d):
        r = j; path = ()
        if r.op == 'phi' and r.a[2] != self.q.g.uid: return self.fail('foreign phi')
        while r.op == 'fld': path = (r.a[1],) + path; r = r.a[0]
        if r.op == 'elem': ver, idxs = r.a[0], (r.a[1],)
        elif r.op == 'sel': ver, idxs = r.a
        else: return self.fail('cannot tell the column of %s' % show(j, 5))
        k = ver_key(ver)
        fpath = path
        if k and '[]' in k and r.op == 'sel':
            last = len(k) - 1 - k[::-1].index('[]')
            fpath = tuple(k[last + 1:]) + path
        name = tuple(x for x in fpath if x not in ('Some.0',))
        # coordinates: atoms of C that read the same element
        xz = {}
        rest = dict(C); 
        for m, c in C.items():
            for a, e in m:
                f = a; p2 = ()
                while f.op == 'fld': p2 = (f.a[1],) + p2; f = f.a[0]
                if f.op in ('sel', 'elem'):
                    ii = f.a[1] if f.op == 'sel' else (f.a[1],)
                    kk = ver_key(f.a[0])
                    if kk and '[]' in kk and f.op == 'sel':
                        last = len(kk) - 1 - kk[::-1].index('[]')
                        p2 = tuple(kk[last + 1:]) + p2
                    if tuple(nf(i) for i in ii) == tuple(nf(i) for i in idxs): xz.setdefault(a, (p2, f.a[0]))
        if not xz: return self.fail('no coordinates are stored with %s (column %s)' % (show(j, 4), show(from_poly(C), 5)))
        key = (ver, fpath, from_poly(C))
        if key in self.open: return True
        self.open.append(key)
        try: return self.contents(ver, idxs, name, xz, C, W, d, set())
        finally: self.open.pop()
    def contents(self, ver, idxs, name, xz, C, W, d, seen):
        if ver in seen: return True
        seen.add(ver)
        op = ver.op
        if op in ('undef', 'vec0'): return True
        if op in ('vecfill', 'fillv', 'fill'): return self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
        if op == 'phi':
            return all([self.contents(v, idxs, name, xz, C, W, d, seen) for v in self.q.g.phi_args(ver).values()])
        if op == 'lift': return self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
        if op == 'after':
            if isinstance(ver.a[2], str) and short(ver.a[2]).split('::')[-1] in PERMUTE: return self.contents(ver.a[-1], idxs, name, xz, C, W, d, seen)
            return self.fail('the list is changed by %s' % ver.a[2])
        if op == 'slice': return self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
        if op == 'fld' or op == 'elem': return self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
        if op == 'sel': return self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
        if op == 'store':
            ok = self.contents(ver.a[0], idxs, name, xz, C, W, d, seen)
            return self.stored(ver.a[2], name, xz, C, W, d, seen) and ok
        if op in ('agg', 'param', 'deref'): return self.stored(ver, name, xz, C, W, d, seen) if op == 'agg' else self.fail('list of unknown content %s' % show(ver, 3))
        return self.fail('list content %s is not understood' % show(ver, 4))
    def stored(self, val, name, xz, C, W, d, seen):
        if val.op == 'agg' and val.a[1] == 'core::option::Option' and val.a[2] == 'None': return True
        if val.op == 'agg' and val.a[1] and val.a[1].endswith('vec::Vec') and num(fld(val, 'len')) == 0: return True
        if val.op == 'undef': return True
        if val.op in ('vec0', 'vecfill'): return True
        if val.op in ('sel', 'elem'):
            # a record moved from another list (or another place of the same one)
            return self.contents(val.a[0], None, name, xz, C, W, d, seen)
        if val.op == 'phi':
            return all([self.stored(v, name, xz, C, W, d, seen) for v in self.q.g.phi_args(val).values()]) if val not in seen and not seen.add(val) else True
        if val.op == 'after' and isinstance(val.a[2], str) and short(val.a[2]).split('::')[-1] in PERMUTE: return True
        if val.op == 'upd':
            ok = self.stored(val.a[0], name, xz, C, W, d, seen)
            for rel, x in val.a[1]:
                if tuple(rel) == name[:len(rel)]:
                    if x.op in ('sel', 'elem'): ok = self.contents(x.a[0], None, name, xz, C, W, d, seen) and ok
                    else: ok = self.stored(x, name, xz, C, W, d, seen) and ok
                elif any(tuple(rel) == p2[:len(rel)] for p2, kv in xz.values()): ok = self.fail('coordinates of a stored record are changed on their own')
            return ok
        if val.op != 'agg': return self.fail('a stored record %s is not understood' % show(val, 4))
        v = val
        for s in name: v = fld(v, s)
        if v.op == 'agg' and v.a[2] == 'None': return True
        if v.op == 'agg' and v.a[2] == 'Some': v = v.a[4][0]
        m = {}
        for a, (p2, kv) in xz.items():
            w = val
            for s in p2: w = fld(w, s)
            m[a] = nf(w)
        if v.op == 'fld' and v.a[1] != 'Some.0' and False: pass
        C2 = poly(subst(from_poly(C), m))
        blks = self.sites.get(val) or [None]
        ok = True
        for b in blks:
            if b is None: ok = self.fail('no site stores %s' % show(val, 3)); continue
            ok = self.prove(v, C2, b, W, d - 1) and ok
        return ok

def scan(q):
    """[(block, node, what)]: every value the function computes with or branches on"""
    for e in q.events():
        if e.kind == 'store': yield e.blk, e.a[1] + (e.a[2],), 'store'
        elif e.kind == 'index': yield e.blk, tuple(x for x in e.a if isinstance(x, (N, tuple))), 'index'
        elif e.kind in ('call', 'ret'): yield e.blk, tuple(x for x in e.a if isinstance(x, (N, tuple))), e.kind
    for b in range(q.n):
        if q.live[b] and q.f.blocks[b].term[0] == 'switch': yield b, (q.g.cond[b],), 'switch'
def flatten_nodes(t):
    for x in t:
        if isinstance(x, N): yield x
        elif isinstance(x, tuple): yield from flatten_nodes(x)

def neighbours(q):
    """{(neighbour polynomial node): (C, j, dir, con atom, first block)} plus odd uses of connections"""
    out, odd, atoms = {}, {}, set()
    for b, t, what in scan(q):
        for r in flatten_nodes(t):
            r = nf(r)
            for x in reach_nodes(r):
                if con_atom(x): atoms.add(x)
                if x.op != 'poly': continue
                p = dict(x.a[0])
                cells, cons, rest = split(p)
                if not cons:
                    # a connection that reaches the sum through a choice
                    for m in rest:
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'phi' and cells:
                            vs = [v for _, v in q.values(m[0][0])]
                            if any(con_atom(nf(v)) for v in vs): odd.setdefault(x, b)
                    continue
                hit = False
                for (j, dr), c, a in cons:
                    part = [t for t in cells if t[1] == c]
                    if len(cons) == 1 and len(part) == 1 and len(cells) == 1:
                        n = from_poly(padd(patom(a), patom(part[0][2])))
                        e = out.setdefault(n, (part[0][0], j, dr, a, part[0][2], []))
                        if b not in e[5]: e[5].append(b)
                        hit = True
                if not hit and not (not cells and all(m == () for m in rest) and len(cons) == 1):
                    odd.setdefault(x, b)
    return out, odd, atoms
_rn = {}
def reach_nodes(r):
    if r not in _rn: _rn[r] = walk_nodes(r)
    return _rn[r]

def direction_ok(q, C, Cj, dirn, W):
    """C - Cj is the offset of direction dirn, for each direction -> message or None"""
    p = padd(poly(C), poly(Cj), -1)
    ks = [num(dirn)] if num(dirn) is not None else range(4)
    for k in ks:
        if k is None or not 0 <= k < 4: return 'direction %s is not one of the four' % k
        for gd, x in offset_at(q, p, dirn, k):
            want = padd(pconst(OFFX[k]), pmul(pconst(OFFZ[k]), poly(W)))
            if padd(x, want, -1): return 'for direction %d the column is off by %s' % (k, show(from_poly(padd(x, want, -1)), 5))
    return None
def column_of(q, j, blk):
    """cell number of the column span j lies in, where the code shows it directly"""
    j = nf(j)
    nb = neighbour(j)
    if nb and nb != 'bad': return nb[0]
    r = q.range_of(j, blk)
    if r:
        cells, cons, rest = split(poly(r[0]))
        if len(cells) == 1 and not cons and not rest and cells[0][1] == 1: return cells[0][0]
    return None
def column_before(q, C, dirn, W):
    """the column a step in direction dirn to C starts from"""
    ks = [num(dirn)] if num(dirn) is not None else range(4)
    r = None
    for k in ks:
        for gd, x in offset_at(q, poly(C), dirn, k):
            y = from_poly(padd(x, padd(pconst(OFFX[k]), pmul(pconst(OFFZ[k]), poly(W))), -1))
            if r is None: r = y
            elif r is not y: return None
    return r

def row_split(n):
    """x + z * width -> (x poly, z poly, width atom) when there is exactly one width atom"""
    p = poly(nf(n)); ws = set()
    for m in p:
        for a, e in m:
            if e == 1 and ((a.op == 'fld' and a.a[1] == 'width') or (a.op == 'phi' and a.a[1][-1] == 'width')): ws.add(a)
    if len(ws) != 1: return None
    w = ws.pop(); x, z = {}, {}
    for m, c in p.items():
        if (w, 1) in m: z[tuple(t for t in m if t != (w, 1))] = c
        else: x[m] = c
    return x, z, w
def nonneg(q, p, b):
    n = from_poly(p)
    if num(n) is not None: return num(n) >= 0
    if implies(q.facts(b), q.formula(nf(mk('lt', const(-1), n)))): return True
    if all(c >= 0 for c in p.values()):
        def atom_ok(a):
            ind = q.induction(a) if a.op == 'phi' else None
            if ind and num(ind[0]) is not None and num(ind[0]) >= 0 and ind[1] > 0: return True
            return a.op == 'fld' and a.a[1] in UNSIGNED
        return all(all(atom_ok(a) for a, e in m) for m in p)
    r = q.range_of(n, b)
    return bool(r and num(r[0]) is not None and num(r[0]) >= 0)
UNSIGNED = {'width', 'height', 'border_size', 'index', 'count'}
def below(q, p, w, b):
    if implies(q.facts(b), q.formula(nf(mk('lt', from_poly(p), w)))): return True
    r = q.range_of(from_poly(p), b)
    return bool(r and same(r[1], w))
