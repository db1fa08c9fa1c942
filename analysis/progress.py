"""Loops that get somewhere: in every pass, something the loop's own end depends on moves, and always the same way."""
from lib import *
import seqs
from cyclic import poly_diff
INT_DOWN = ('sub',)
def within(q, h): return q.loops[h]
def alternatives(q, h, v, depth=8):
    v = nf(v)
    if v.op == 'phi' and v.a[2] == q.g.uid and v.a[0] not in q.loops and v.a[0] in q.loops[h] and depth:
        cs = q.cases(v)
        if cs: return [(B.AND(c, g), z) for c, y in cs for g, z in alternatives(q, h, y, depth - 1)]
    return [(True, v)]
def exits(q, h):
    """edges out of the loop that do not end in a panic"""
    return [(p, s) for p, s in seqs.ways_out(q, h)]
def decisions(q, h):
    """[(condition of the edge, whole condition within a pass)] for the edges out of loop h"""
    out = []
    for p, s in exits(q, h):
        e = q.edge(p, s); g = q.guard(p, h)
        out.append((e, B.AND(True if g is None else g, e)))
    return out
def state(q, h):
    """header values the end of loop h depends on"""
    L = q.loops[h]; todo = []
    for e, w in decisions(q, h):
        for f in (e, w):
            if f not in (True, False): todo += list(fatoms(f))
    out = []; seen = set()
    while todo:
        n = todo.pop()
        for y in walk_nodes(n):
            if id(y) in seen: continue
            seen.add(id(y))
            if y.op != 'phi' or y.a[2] != q.g.uid: continue
            if y.a[0] == h:
                if not any(z is y for z in out):
                    out.append(y)
            elif y.a[0] in L:
                if y.a[0] in q.loops:
                    en, bk = q.entry_args(y); todo += list(en) + list(bk)
                else:
                    for c, v in q.cases(y) or []:
                        todo.append(v)
                        if c not in (True, False): todo += list(fatoms(c))
    return out
def family(x, z):
    """z is x or a part of x kept on its own"""
    return z is x or z.op == 'phi' and x.op == 'phi' and z.a[0] == x.a[0] and z.a[2] == x.a[2] and (z.a[1][:1] == x.a[1][:1])
def depends(v, x): return any(family(x, z) for z in walk_nodes(v))
def linked(v, x):
    """v is found by following x: the next of what x stands for, or the entry of a table at x"""
    if v.op == 'undef': return True
    if v.op == 'agg' and v.a[1] and 'Option' in str(v.a[1]) and not v.a[4]: return True     # None: nothing follows
    for y in walk_nodes(v):
        if y.op == 'fld' and y.a[1].split('.')[-1] == 'next' and depends(y.a[0], x): return True
    if v.op in ('elem', 'sel'):
        return any(depends(y, x) for y in (v.a[1] if isinstance(v.a[1], tuple) else (v.a[1],)))
    if v.op == 'fld' or v.op == 'deref': return linked(v.a[0], x)
    return False
def move(q, h, v, x, depth=4, seen=()):
    """set of ways v differs from x: 'same', '+', '-', '0+', '0-', 'link', 'cycle', 'set', '?'"""
    v = nf(v); r = set()
    for c, z in alternatives(q, h, v): r.add(move1(q, h, z, x, depth, seen))
    return r
def move1(q, h, z, x, depth, seen):
    if z is x or same(z, x): return 'same'
    d = poly_diff(z, x)
    if d is not None: return '+' if d > 0 else '-'
    if sized(z, x): return '+'
    if z.op == 'sat' and z.a[0] == 'sub' and z.a[1] is x and (num(z.a[2]) or 0) > 0: return '-'
    if z.op in ('idiv', 'shr') and nf(z.a[0]) is x and (num(z.a[1]) or 0) > 1: return '-'
    if z.op == 'rem':
        p = padd(poly(z.a[0]), poly(x), -1)
        if not any(y is x for m in p for a, k in m for y in walk_nodes(a)): return 'cycle'
    if linked(z, x): return 'link'
    if z.op == 'phi' and z.a[2] == q.g.uid and z.a[0] in q.loops and z.a[0] in q.loops[h] and z.a[0] != h and depth and z not in seen:
        en, bk = q.entry_args(z); r = set()
        for v in en: r |= move(q, h, v, x, depth - 1, seen + (z,))
        s = set()
        for v in bk: s |= move(q, h, v, z, depth - 1, seen + (z,))
        if r <= {'same', '+', '0+'} and s <= {'same', '+', '0+'}: return '+' if r == {'+'} else '0+'
        if r <= {'same', '-', '0-'} and s <= {'same', '-', '0-'}: return '-' if r == {'-'} else '0-'
        if r <= {'-'} and s <= {'same', '+', '0+'}: return '-+'
        if r <= {'same', 'link'} and s <= {'same', 'link'}: return 'link' if r == {'link'} else 'same'
        return '?'
    if z.op == 'poly':
        for y in {a for m in poly(z) for a, k in m}:
            d = poly_diff(z, y)
            if d is None or y.op != 'phi' or y.a[0] == h: continue
            r = move1(q, h, y, x, depth - 1, seen) if depth else '?'
            if d > 0 and r in ('same', '+', '0+'): return '+'
            if d < 0 and r in ('same', '-', '0-'): return '-'
    if num(z) is not None or z.op in ('const', 'true', 'false', 'bool'): return 'set'
    return '?'
def sized(z, x):
    """z = x + (a size that is at least one: a chunk or step size)"""
    p = {m: k for m, k in padd(poly(z), poly(x), -1).items() if k}
    if not p or any(y is x for m in p for a, k in m for y in walk_nodes(a)): return False
    return all(k > 0 for k in p.values()) and all(q_param(a) for m in p for a, k in m)
def q_param(a): return not any(y.op == 'phi' for y in walk_nodes(a))
def ends_up(q, h, x):
    """which way x has to go for the loop to end: {'+', '-'}, as far as a comparison says"""
    r = set(); known = False
    for e, w in decisions(q, h):
        if e in (True, False): continue
        for at in fatoms(e):
            if at.op != 'le0': 
                if at.op == 'eq0' and any(y is x for m in poly(at.a[0]) for a, k in m for y in walk_nodes(a)): r |= {'+', '-'}; known = True
                continue
            p = poly(at.a[0])
            for m, k in p.items():
                if len(m) == 1 and m[0][0] is x:
                    known = True
                    if not B_sat(B.restrict(e, {at: True})) is False: r.add('-' if k > 0 else '+')
                    if not B_sat(B.restrict(e, {at: False})) is False: r.add('+' if k > 0 else '-')
                elif any(y is x for a, k2 in m for y in walk_nodes(a)): known = True; r |= {'+', '-'}
    return r if known else {'+', '-'}
def B_sat(f): return f is not False
def report(q, h):
    """-> (ok, detail)"""
    xs = state(q, h); rows = {}; good = []
    for x in xs:
        kinds = set(); per = {}
        for p, v in q.g.phi_args(x).items():
            if p not in q.loops[h]: continue
            per[p] = [(c, move1(q, h, z, x, 4, ())) for c, z in alternatives(q, h, v)]
            kinds |= {k for c, k in per[p]}
        ways = ends_up(q, h, x)
        if kinds <= {'same', '+', '0+'} and '+' in ways or kinds <= {'same', '-', '0-'} and '-' in ways or kinds <= {'same', 'link'} or kinds <= {'same', 'cycle'}:
            if kinds & {'+', '-', 'link', 'cycle'}: good.append(x)
        rows[x] = (kinds, per)
    bad = []
    for l in q.latches(h):
        g = q.guard(l, h); f = B.AND(True if g is None else g, B.AND(q.facts(l), q.edge(l, h)))
        for x in good:
            still = False
            for c, k in rows[x][1].get(l, []):
                if k in ('same', '0+', '0-'): still = B.OR(still, c)
            f = B.AND(f, still)
        if not unsat(f): bad.append((l, f))
    return xs, rows, good, bad

# ---------------------------------------------------------------- loops that end because something runs out
def unsigned_conflict(f, good):
    """f with comparisons an unsigned count cannot satisfy removed"""
    out = False
    for cube in B.cubes(f):
        m = {}
        for at, v in cube.items() if isinstance(cube, dict) else cube:
            if at.op == 'eq0' and v:
                n = nf(at.a[0])
                if n.op == 'phi' and n.a[1][-1] == '#len': m[n] = const(0)
        bad = False
        if m:
            for at, v in cube.items() if isinstance(cube, dict) else cube:
                if at.op != 'le0': continue
                p = poly(subst(from_poly(poly(at.a[0])), m))
                if all(any(a is x for x in good) and k2 == 1 for mm in p for a, k2 in mm):
                    hi = all(k <= 0 for mm, k in p.items())           # p <= 0 always (counts are not negative)
                    lo = all(k >= 0 for mm, k in p.items() if mm) and p.get((), 0) > 0
                    if (not v and hi) or (v and lo): bad = True
        if not bad: return True
    return False
def kinds_of(q, h, x):
    return {p: [(c, z, move1(q, h, z, x, 4, ())) for c, z in alternatives(q, h, v)] for p, v in q.g.phi_args(x).items() if p in q.loops[h]}
def is_const(v):
    v = nf(v)
    if num(v) is not None or v.op in ('const', 'true', 'false', 'bool'): return True
    return v.op == 'agg' and all(is_const(z) for z in v.a[4])
def marks(q, h, g, extra=True):
    """stores in loop h that change a list element from what g says it is not to what it then is"""
    out = []
    for e in q.events('store'):
        if h not in q.chain(e.blk) or not isinstance(e.a[0], tuple): continue
        k = e.a[0]
        if not e.a[1] or k[-1] == '#len': continue
        old = nf(e.a[3]) if e.a[3] is not None and hasattr(e.a[3], 'op') else None
        if old is None: continue
        new = nf(e.a[2])
        if new.op in ('elem', 'sel') and old.op in ('elem', 'sel') and root(new) == root(old): continue      # moved about, not marked
        if turned(q, g, old, new): out.append(e)
    return out
def cells_like(old, g):
    """what g looks at that is the same cell as old, possibly read in another state of the list"""
    out = []
    if g in (True, False): return out
    for at in fatoms(g):
        for y in walk_nodes(at):
            if y.op in ('elem', 'sel', 'fld', 'phi') and (y is old or alike(y, old)) and not any(z is y for z in out): out.append(y)
    return out
def alike(a, b):
    if a.op != b.op: return a.op in ('elem', 'sel') and b.op in ('elem', 'sel') and index_of(a) is not None and same(index_of(a), index_of(b)) and root(a) == root(b)
    if a.op == 'fld': return a.a[1] == b.a[1] and (a.a[0] is b.a[0] or alike(a.a[0], b.a[0]))
    if a.op in ('elem', 'sel'): return same(index_of(a), index_of(b)) and root(a) == root(b)
    return False
def index_of(n):
    i = n.a[1]
    return nf(i[-1]) if isinstance(i, tuple) and i else (nf(i) if hasattr(i, 'op') else None)
def root(n):
    b = n.a[0]
    while b.op in ('upd', 'store'): b = b.a[0]
    return ('phi', b.a[1]) if b.op == 'phi' else b
def turned(q, g, old, new):
    """g forbids the value the cell gets"""
    ys = cells_like(old, g)
    if not ys: return False
    for y in ys:
        if unsat(B.AND(g, True)): return False
        try: f = q.fsubst(g, {y: new})
        except Exception: continue
        f = simplify(q, f)
        if unsat(f): return True
        if touched(f, g, y, new): return True
    return False
def simplify(q, f): return f
def touched(f, g, y, new):
    """the test of the cell against a constant fails for the new value unless that is the same (not known) value"""
    from q import V
    for at in fatoms(g):
        if any(z is y for z in walk_nodes(at)):
            if not implies(g, B.var(at)) and not implies(g, B.NOT(B.var(at))): continue
            if at.op in ('eq0',) and named(new) and not cells_like(y, B.var(mk('eq0', new))): return True
    return False
def named(v):
    """a value that stands on its own, not one worked out from a test"""
    v = nf(v)
    while v.op in ('toint', 'cast'): v = nf(v.a[-1])
    if v.op == 'agg': return bool(v.a[4]) and all(named(z) for z in v.a[4])
    return v.op in ('param', 'elem', 'sel', 'fld', 'deref', 'phi', 'call')
def worklist(q, h, x):
    """a stack: every pass takes one entry, and what is put on it was marked so that it is never put on it again"""
    ks = kinds_of(q, h, x)
    if not ks or not all(k in ('-', '-+') for l in ks.values() for c, z, k in l): return None
    ps, oth = seqs.pushes(q, x.a[1][:-1])
    ps = [p for p in ps if h in q.chain(p.blk)]
    if not ps: return 'nothing is put on the list'
    for p in ps:
        if not marked_push(q, h, p.blk): return 'what is put back on the list is not marked first'
    return ''
def marked_push(q, h, b):
    g = q.guard(b, h)
    hs = q.loop(b)
    g = B.AND(True if g is None else g, q.guard(b, hs) if hs is not None and hs != h else True)
    for e in marks(q, h, g):
        if q.dominates(e.blk, b): return True
        if q.dominates(b, e.blk) and q.loop(e.blk) == q.loop(b) and always_after(q, b, e.blk): return True
    return False
def always_after(q, b, s):
    """whoever passes b passes s before the pass ends"""
    h = q.loop(b)
    if h is None: return False
    r = q.reach([b], without=(s,))
    return b == s or not (set(q.latches(h)) & r)
def queue(q, h, x, xs):
    """a list read from the front: the front moves on, or front and list are cut down together"""
    lens = []
    for e, w in decisions(q, h):
        for at in fatoms(e) if e not in (True, False) else []:
            if at.op == 'le0':
                for m in poly(at.a[0]):
                    if len(m) == 1 and m[0][0].op == 'phi' and m[0][0] is not x and m[0][0].a[1][-1] == '#len': lens.append(m[0][0])
    if not lens: return None
    n = lens[0]
    for l, al in kinds_of(q, h, x).items():
        for c, z, k in al:
            if k == '+': continue
            if k != 'set' : return None
            nb = None
            for c2, z2 in start_of_pushes(q, h, q.g.phi_args(n)[l]):
                if unsat(B.AND(c, c2)): continue
                d = padd(padd(poly(z2), poly(z), -1), padd(poly(n), poly(x), -1), -1)      # (n' - x') - (n - x)
                d = {m: v for m, v in d.items() if v}
                lo = least(q, B.AND(c, c2), x)
                rest = {m: v for m, v in d.items() if m and not (len(m) == 1 and m[0] == (x, 1))}
                if rest or lo is None: return 'the front of the list is moved back'
                kx = d.get(((x, 1),), 0)
                if kx * lo + d.get((), 0) >= 0: return 'the front of the list is moved back further than the list shrinks'
    ps, oth = seqs.pushes(q, n.a[1][:-1])
    for p in ps:
        if h in q.chain(p.blk) and not marked_push(q, h, p.blk): return 'what is put on the list is not marked first'
    return ''
def start_of_pushes(q, h, v, depth=4):
    out = []
    for c, z in alternatives(q, h, v):
        if z.op == 'phi' and z.a[0] in q.loops and z.a[0] != h and depth:
            en, bk = q.entry_args(z)
            for y in en: out += [(B.AND(c, c2), z2) for c2, z2 in start_of_pushes(q, h, y, depth - 1)]
        else: out.append((c, z))
    return out
def least(q, f, x):
    """smallest value f leaves to x"""
    if f in (True, False): return None
    best = None
    for at in fatoms(f):
        if at.op not in ('le0', 'eq0'): continue
        p = poly(at.a[0])
        if set(p) - {(), ((x, 1),)}: continue
        k = p.get(((x, 1),), 0)
        if at.op == 'eq0':
            if abs(k) == 1 and implies(f, B.var(at)):
                v = -p.get((), 0) / k; best = v if best is None else max(best, v)
            continue
        if k == -1 and implies(f, B.var(at)): v = p.get((), 0)
        elif k == 1 and implies(f, B.NOT(B.var(at))): v = 1 - p.get((), 0)
        else: continue
        best = v if best is None else max(best, v)
    return best
def found(q, h, c):
    """c says that something was found in this pass: a value that is nothing when the search starts is there"""
    if c in (True, False): return False
    for at in fatoms(c):
        pos = implies(c, B.var(at)); neg = implies(c, B.NOT(B.var(at)))
        if not pos and not neg: continue
        for y in walk_nodes(at):
            if y.op == 'phi' and y.a[0] in q.loops and y.a[0] in q.loops[h] and y.a[0] != h:
                en, bk = q.entry_args(y)
                if en and all(is_const(v) for v in en):
                    f = at_value(q, at, y, nf(en[0]))
                    if f is not None and (pos and unsat(f) or neg and taut(f)): return True
    return False
def gap(q, h, c):
    """c says that there is room between two neighbours: their distance along the list is at least two"""
    if c in (True, False): return False
    for at in fatoms(c):
        if at.op != 'le0': continue
        p = poly(at.a[0])
        ms = [m for m in p if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            n = ms[0][0][0]; k = p[ms[0]]; c0 = p.get((), 0)
            lo = -(-c0 // -k) if False else (c0 if k == -1 and implies(c, B.var(at)) else (1 - c0 if k == 1 and implies(c, B.NOT(B.var(at))) else None))
            if lo is not None and lo >= 2 and spread(q, h, n): return True
        else:
            pos = implies(c, B.var(at)); neg = implies(c, B.NOT(B.var(at)))
            if not (pos or neg): continue
            d = {m: (-v if pos else v) for m, v in p.items()}           # d + const is at least ...
            c0 = d.pop((), 0); lo = -c0 if pos else 1 - c0
            if lo >= 2 and spread_poly(q, h, d): return True
    return False
def spread(q, h, n):
    cs = q.cases(n) if n.op == 'phi' and n.a[0] not in q.loops else None
    return bool(cs) and all(spread_poly(q, h, poly(nf(v))) for c, v in cs)
def spread_poly(q, h, p):
    el = {m[0][0]: k for m, k in p.items() if len(m) == 1 and m[0][1] == 1 and any(y.op == 'phi' and y.a[0] == h for y in walk_nodes(m[0][0]))}
    return any(k == 1 for k in el.values()) and any(k == -1 for k in el.values())
def at_value(q, at, y, v):
    try: return q.fsubst(B.var(at), {y: v})
    except Exception: return None
def rounds(q, h):
    """a loop that ends when a round changed nothing: whatever keeps it going used something up"""
    for e, w in decisions(q, h):
        if e in (True, False): continue
        for at in fatoms(e):
            for y in walk_nodes(at):
                if y.op != 'phi' or y.a[0] not in q.loops or y.a[0] == h or y.a[0] not in q.loops[h]: continue
                r = round_of(q, h, e, at, y)
                if r is not None: return r
    return None
def round_of(q, h, e, at, y):
    en, bk = q.entry_args(y)
    if not en or not all(is_const(v) for v in en): return None
    h2 = y.a[0]
    first = at_value(q, at, y, nf(en[0]))
    if first is None: return None
    over = same_truth(e, at, first)           # the loop ends when nothing happened to y
    ks = kinds_of(q, h2, y); need = []
    for l, al in ks.items():
        g = q.guard(l, h2); g = B.AND(True if g is None else g, B.AND(q.facts(l), q.edge(l, h2)))
        for c, z, k in al:
            if over and k == 'same': continue
            if not over and k == '+': continue
            f = B.AND(g, c)
            if unsat(f): continue
            need.append((l, f))
    for l, f in need:
        if not used_up(q, h2, l, f): return 'a round goes on although nothing was used up'
    return ''
def same_truth(e, at, first):
    if first is True: return B.restrict(e, {at: True}) is True
    if first is False: return B.restrict(e, {at: False}) is True
    return False
def used_up(q, h, l, f):
    """in the pass of h that ends at l under f a count went down or an element was marked for good"""
    for x in q.header_phis(h):
        ks = kinds_of(q, h, x)
        if {k for al in ks.values() for c, z, k in al} <= {'same', '-', '0-'}:
            still = False
            for c, z, k in ks.get(l, []):
                if k != '-': still = B.OR(still, c)
            if unsat(B.AND(f, still)): return True
    for e in marks(q, h, f):
        if not is_const(e.a[2]): continue
        g = q.guard(e.blk, h)
        if q.loop(e.blk) == h and (g in (None, True) or implies(f, g) or q.dominates(e.blk, l)): return True
    return False
def shrinking(q, h):
    """each pass uses up one of a number of things that never grows and that the search for the next one runs over"""
    L = q.loops[h]; names = set()
    for h2 in q.loops:
        if h2 != h and h2 in L:
            for p, s in seqs.ways_out(q, h2):
                e = q.edge(p, s)
                for at in fatoms(e) if e not in (True, False) else []:
                    for y in walk_nodes(at):
                        if y.op == 'phi' and y.a[0] == h and y.a[2] == q.g.uid: names.add(y)
    for x in names:
        ks = kinds_of(q, h, x)
        if ks and all(k == '-' for al in ks.values() for c, z, k in al): return ''
    return None
def judge(q, h):
    """None when loop h provably gets somewhere in every pass, else what is wrong"""
    xs, rows, good, bad = report(q, h)
    if not bad: return None
    if good:
        bad = [(l, f) for l, f in bad if unsigned_conflict(f, good)]
        if not bad: return None
    why = None
    for x in xs:
        for r in (worklist(q, h, x) if x.a[1][-1] == '#len' else None, queue(q, h, x, xs) if x.a[1][-1] != '#len' and x.a[1][-1] != '[]' else None):
            if r == '': return None
            why = why or r
    if why: return why
    # growth of what is walked over, by something found in this pass
    grown = []
    for x in xs:
        ks = rows[x][0]
        if ks <= {'same', '+'} and ks & {'+'} and x not in good: grown.append(x)
    if grown and good:
        rest = []
        for l, f in bad:
            g = f
            for x in grown:
                for c, k in rows[x][1].get(l, []):
                    if k == '+' and (found(q, h, B.AND(f, c)) or gap(q, h, B.AND(f, c))): g = B.AND(g, B.NOT(c))
            if not unsat(g): rest.append((l, g))
        if not rest: return None
        bad = rest
    for r in (rounds(q, h), shrinking(q, h)):
        if r == '': return None
        why = why or r
    return why or 'a pass can leave everything its end depends on as it was'
