"""Queries over a value graph: normal forms, guards (as decision diagrams), loops and induction variables."""
import sys
from fractions import Fraction
from math import gcd, ceil
import flat as FL, vg as V
from vg import N, mk, const, is_const, num, fval, show, isb, TRUE, FALSE, fld, elem, sel
from facts import *
sys.setrecursionlimit(200000)

# ---------------------------------------------------------------- polynomial normal form
# {monomial: coefficient}; a monomial is a sorted tuple of (atom, exponent)
def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + c * k
        if c2: r[m] = c2
        else: r.pop(m, None)
    return r
def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = {}
            for a, e in m1 + m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))
            c = r.get(m, 0) + c1 * c2
            if c: r[m] = c
            else: r.pop(m, None)
    return r
def pconst(c): return {(): Fraction(c)} if c else {}
def patom(n, e=1): return {((n, e),): Fraction(1)}
def pkey(p):
    return tuple(sorted(p.items(), key=lambda t: (tuple((a.id, e) for a, e in t[0]), t[1])))
def pisconst(p): return not p or (len(p) == 1 and () in p)
def pcval(p): return p.get((), Fraction(0))

_poly = {}
def poly(n):
    r = _poly.get(n)
    if r is not None: return r
    op, a = n.op, n.a
    if op == 'const':
        v = a[0]
        if isinstance(v, bool): r = patom(n)
        elif isinstance(v, int): r = pconst(v)
        elif isinstance(v, tuple) and v[0] == 'f' and isinstance(v[1], float) and v[1] == v[1] and abs(v[1]) != float('inf'): r = pconst(Fraction(v[1]))
        else: r = patom(n)
    elif op == 'poly': r = dict(a[0])
    elif op == 'add': r = padd(poly(a[0]), poly(a[1]))
    elif op == 'sub': r = padd(poly(a[0]), poly(a[1]), -1)
    elif op == 'mul': r = pmul(poly(a[0]), poly(a[1]))
    elif op == 'neg': r = padd({}, poly(a[0]), -1)
    elif op in ('tofloat', 'cast'):
        r = poly(a[0] if op == 'tofloat' else a[1])
    elif op == 'ncast': r = poly(a[0])
    elif op in ('fdiv', 'div') and (op == 'fdiv' or any(V.isf(x) for x in a)):
        r = pmul(poly(a[0]), pinv(a[1]))
    elif op == 'recip': r = pinv(a[0])
    elif op == 'shl' and num(a[1]) is not None: r = pmul(poly(a[0]), pconst(1 << num(a[1])))
    elif op == 'shr' and num(a[1]) is not None: r = patom(mk('idiv', nf(a[0]), const(1 << num(a[1]))))
    elif op == 'div': r = patom(mk('idiv', nf(a[0]), nf(a[1])))
    elif op == 'upd' or op == 'agg': r = patom(nf_struct(n))
    else:
        x = nf_struct(n)
        r = poly(x) if x is not n and x.op in ('const', 'poly', 'add', 'sub', 'mul') else patom(x)
    _poly[n] = r
    return r
def pinv(n):
    p = poly(n)
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    return {((from_poly(p), -1),): Fraction(1)}

def from_poly(p):
    if not p: return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(int(c)) if c.denominator == 1 else mk('poly', pkey(p))
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return mk('poly', pkey(p))

_nf = {}
ARITH = {'add', 'sub', 'mul', 'neg', 'tofloat', 'cast', 'fdiv', 'shl', 'shr', 'div', 'poly', 'recip', 'ncast'}
def nf(n):
    r = _nf.get(n)
    if r is not None: return r
    if n.op in ARITH: r = from_poly(poly(n))
    elif n.op == 'const':
        v = n.a[0]
        r = from_poly(poly(n)) if not isinstance(v, bool) else n
    else:
        r = nf_struct(n)
        if r.op in ARITH: r = nf(r)
    _nf[n] = r
    _nf[r] = r
    return r

_nfs = {}
def nf_struct(n):
    r = _nfs.get(n)
    if r is not None: return r
    op, a = n.op, n.a
    if op in ('phi', 'const', 'undef', 'param', 'static', 'constdef', 'fnptr', 'any'): r = n
    elif op in ('min', 'max'):
        s = set()
        def walk(x):
            if x.op == op:
                for y in x.a: walk(y)
            else: s.add(nf(x))
        for x in a: walk(x)
        # nested canonical forms of the same operator
        flat = set()
        for x in s:
            if x.op == op + 's': flat |= set(x.a[0])
            else: flat.add(x)
        r = mk(op + 's', tuple(sorted(flat, key=lambda t: t.id))) if len(flat) > 1 else next(iter(flat))
    elif op == 'abs':
        p = poly(a[0]); q = padd({}, p, -1)
        r = mk('abs', from_poly(min(p, q, key=lambda t: tuple((c > 0) for m, c in pkey(t)), default=p) if False else orient(p)[0]))
    elif op == 'fld': r = fld(nf(a[0]), a[1]) if a[0].op not in ('param',) else n
    elif op == 'elem': r = elem(nf(a[0]), nf(a[1]))
    elif op == 'sel': r = sel(nf(a[0]), tuple(nf(x) for x in a[1]))
    elif op == 'store': r = V.store(nf(a[0]), tuple(nf(x) for x in a[1]), nf(a[2]))
    elif op == 'not': r = V.neg(nf(a[0]))
    elif op in ('lt', 'flt', 'eq'):
        r = cmp_nf(op, a[0], a[1])
    elif op in ('and', 'or', 'xor'):
        r = V.binop(op, nf(a[0]), nf(a[1]))
    else:
        na = tuple(nf_arg(x) for x in a)
        r = mk(op, *na) if na != a else n
    _nfs[n] = r
    return r
def nf_arg(x):
    if isinstance(x, N): return nf(x)
    if isinstance(x, tuple): return tuple(nf_arg(y) for y in x)
    return x

def orient(p):
    """make the leading coefficient positive -> (poly, flipped)"""
    if not p: return p, False
    ks = sorted((m for m in p if m != ()), key=lambda m: tuple((a.id, e) for a, e in m))
    lead = p[ks[0]] if ks else p[()]
    if lead < 0: return padd({}, p, -1), True
    return p, False

def cmp_nf(op, x, y):
    p = padd(poly(x), poly(y), -1)
    if op == 'eq':
        if pisconst(p):
            return const(not p)
        q, _ = orient(p)
        q = scale(q)
        if q is None: return FALSE
        return mk('eq0', from_poly(q))
    if op == 'lt':
        p = padd(p, pconst(1))       # p <= 0
        if pisconst(p): return const(pcval(p) <= 0)
        if any(c.denominator != 1 for c in p.values()): 
            l = 1
            for c in p.values(): l = l * c.denominator // gcd(l, c.denominator)
            p = {m: c * l for m, c in p.items()}
        q, fl = orient(p)
        if not fl: return mk('le0', from_poly(iscale(q)))
        # -q <= 0  <=>  not (q <= -1)
        return V.neg(mk('le0', from_poly(iscale(padd(q, pconst(1))))))
    if pisconst(p): return const(pcval(p) < 0)
    q, fl = orient(p)
    q = fscale(q)
    if not fl: return mk('flt0', from_poly(q))
    return V.neg(mk('fle0', from_poly(q)))
def lead_abs(q):
    ks = sorted((m for m in q if m != ()), key=lambda m: tuple((a.id, e) for a, e in m))
    return abs(q[ks[0]])
def fscale(q):
    l = lead_abs(q)
    return {m: c / l for m, c in q.items()}
def scale(q):
    l = lead_abs(q)
    return {m: c / l for m, c in q.items()}
def iscale(q):
    g = 0
    for m, c in q.items():
        if m != (): g = gcd(g, int(c))
    if g <= 1: return q
    r = {m: c / g for m, c in q.items() if m != ()}
    k = ceil(q.get((), Fraction(0)) / g)
    if k: r[()] = Fraction(k)
    return r

def same(a, b): return nf(a) is nf(b)
def diff(a, b):
    """a - b as a constant, or None"""
    p = padd(poly(a), poly(b), -1)
    if pisconst(p): return pcval(p)

# ---------------------------------------------------------------- decision diagrams
class Node:
    """a decision node; nodes are shared, so identity is equality"""
    __slots__ = ('v', 'lo', 'hi')
    def __init__(self, v, lo, hi): self.v = v; self.lo = lo; self.hi = hi
    def __getitem__(self, i): return (self.v, self.lo, self.hi)[i]
class BDD:
    T, F = True, False
    def __init__(self):
        self.order = {}; self.atoms = []; self.tab = {}; self.memo = {}
    def var(self, atom):
        i = self.order.get(atom)
        if i is None:
            i = len(self.atoms); self.order[atom] = i; self.atoms.append(atom)
        return self.node(i, False, True)
    def node(self, v, lo, hi):
        if lo is hi: return lo
        k = (v, id(lo), id(hi))
        r = self.tab.get(k)
        if r is None: r = self.tab[k] = Node(v, lo, hi)
        return r
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if a is True and b is False: return c
        k = (id(c), id(a), id(b))
        r = self.memo.get(k)
        if r is not None: return r
        v = c.v
        if not isinstance(a, bool) and a.v < v: v = a.v
        if not isinstance(b, bool) and b.v < v: v = b.v
        def co(x, s):
            if isinstance(x, bool) or x.v != v: return x
            return x.hi if s else x.lo
        r = self.node(v, self.ite(co(c, 0), co(a, 0), co(b, 0)), self.ite(co(c, 1), co(a, 1), co(b, 1)))
        self.memo[k] = r
        return r
    def AND(self, a, b): return self.ite(a, b, False)
    def OR(self, a, b): return self.ite(a, True, b)
    def NOT(self, a): return self.ite(a, False, True)
    def support(self, a):
        s = set(); seen = set(); st = [a]
        while st:
            x = st.pop()
            if isinstance(x, bool) or id(x) in seen: continue
            seen.add(id(x)); s.add(self.atoms[x[0]]); st += [x[1], x[2]]
        return s
    def restrict(self, f, lits):
        """cofactor by {atom: bool}"""
        d = {self.order[a]: v for a, v in lits.items() if a in self.order}
        memo = {}
        def go(x):
            if isinstance(x, bool): return x
            r = memo.get(id(x))
            if r is None:
                if x[0] in d: r = go(x[2] if d[x[0]] else x[1])
                else: r = self.node(x[0], go(x[1]), go(x[2]))
                memo[id(x)] = r
            return r
        return go(f)
    def cubes(self, f, lim=64):
        out = []
        def go(x, acc):
            if len(out) >= lim: return
            if x is True: out.append(dict(acc)); return
            if x is False: return
            go(x[1], acc + [(self.atoms[x[0]], False)])
            go(x[2], acc + [(self.atoms[x[0]], True)])
        go(f, [])
        return out
    def exists(self, f, atoms):
        for a in atoms:
            if a in self.order:
                i = self.order[a]
                f = self.OR(self.restrict(f, {a: False}), self.restrict(f, {a: True}))
        return f
B = BDD()

def base_const(p):
    """poly -> (node of the non-constant part, constant)"""
    p = dict(p); c = p.pop((), Fraction(0))
    return from_poly(p), c
def theory(atoms):
    """relations between comparison atoms over the same quantity"""
    groups = {}
    ax = True
    for a in atoms:
        if a.op in ('le0', 'eq0', 'flt0', 'fle0'):
            p = poly(a.a[0])
            if a.op == 'eq0' and not pisconst(p): pass
            b, c = base_const(p)
            groups.setdefault(b, []).append((a, a.op, -c))
    for b, l in groups.items():
        for i, (a, o, t) in enumerate(l):
            for (a2, o2, t2) in l[i + 1:]:
                ax = B.AND(ax, rel(a, o, t, a2, o2, t2))
    return ax
def rel(a, o, t, a2, o2, t2):
    x, y = B.var(a), B.var(a2)
    imp = lambda p, q: B.OR(B.NOT(p), q)
    if o == 'eq0' and o2 == 'eq0': return B.NOT(B.AND(x, y)) if t != t2 else True
    if o == 'eq0': return imp(x, y if sat_at(o2, t2, t) else B.NOT(y))
    if o2 == 'eq0': return imp(y, x if sat_at(o, t, t2) else B.NOT(x))
    # both upper bounds
    if covers(o2, t2, o, t): return imp(x, y)
    return imp(y, x)
def sat_at(o, t, v): return v < t if o == 'flt0' else v <= t
def covers(o2, t2, o, t):
    """(o,t) implies (o2,t2)"""
    if t < t2: return True
    if t > t2: return False
    return not (o2 == 'flt0' and o != 'flt0')
def taut(f):
    if f is True: return True
    if f is False: return False
    ax = theory(B.support(f))
    return B.OR(B.NOT(ax), f) is True
def implies(a, b): return taut(B.OR(B.NOT(a), b))
def equiv(a, b): return implies(a, b) and implies(b, a)
def unsat(a): return taut(B.NOT(a))

def showf(f, d=4):
    if isinstance(f, bool): return str(f)
    return ' | '.join('(' + ' & '.join(('' if v else '!') + showatom(a, d) for a, v in c.items()) + ')' for c in B.cubes(f, 12))
def showatom(a, d=4): return show(a, d)
def shown(n, d=5): return show(n, d)

TWO = {'core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow'}

class Q:
    def __init__(self, g):
        self.g = g; self.f = g.f; self.P = g.p
        self.n = len(g.f.blocks)
        self.live = [g.IN[b] is not None for b in range(self.n)]
        self.dom()
        self.loops = {h: {b for b in s if self.live[b]} for h, s in g.loops.items() if self.live[h]}
        self._guard = {}; self._cases = {}; self._ec = {}
        self._inl = {}
        for b in range(self.n):
            hs = [h for h in self.loops if b in self.loops[h]]
            hs.sort(key=lambda h: len(self.loops[h]))
            self._inl[b] = hs       # innermost first
    def loop(self, b): return self._inl[b][0] if self._inl[b] else None
    def chain(self, b): return self._inl[b]
    def preds(self, b): return [p for p in self.g.preds[b] if self.live[p]]
    def dom(self):
        n = self.n; idom = [None] * n
        e = self.f.entry; idom[e] = e
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b == e or not self.live[b]: continue
                ps = [p for p in self.g.preds[b] if idom[p] is not None and self.live[p]]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while x > y: x = idom[x]
                        while y > x: y = idom[y]
                if idom[b] != x: idom[b] = x; ch = True
        self.idom = idom
    def dominates(self, a, b):
        while b is not None and b >= a:
            if a == b: return True
            if b == self.idom[b]: return False
            b = self.idom[b]
        return False

    # ----- conditions
    def formula(self, n, depth=6):
        """boolean node -> decision diagram"""
        n0 = n
        if isb(n): return bool(n.a[0])
        op, a = n.op, n.a
        if op == 'not': return B.NOT(self.formula(a[0], depth))
        if op == 'and': return B.AND(self.formula(a[0], depth), self.formula(a[1], depth))
        if op == 'or': return B.OR(self.formula(a[0], depth), self.formula(a[1], depth))
        if op == 'xor': 
            x, y = self.formula(a[0], depth), self.formula(a[1], depth)
            return B.ite(x, B.NOT(y), y)
        if op in ('lt', 'flt', 'eq'):
            if op == 'eq' and a[0].op == 'discr' or op == 'eq' and a[1].op == 'discr':
                d, c = (a[0], a[1]) if a[0].op == 'discr' else (a[1], a[0])
                if num(c) is not None: return self.discr_atom(d, num(c))
            m = nf(n)
            if isb(m): return bool(m.a[0])
            if m.op == 'not': return B.NOT(B.var(m.a[0]))
            return B.var(m)
        if op == 'phi' and depth and a[2] == self.g.uid:
            cs = self.cases(n)
            if cs and len(cs) <= 6:
                r = False
                for gd, v in cs: r = B.OR(r, B.AND(gd, self.formula(v, depth - 1)))
                return r
            return B.var(n)
        m = nf(n)
        if m is not n and m.op in ('not', 'const'): return self.formula(m, depth)
        return B.var(m)
    def discr_atom(self, d, val):
        v, adt = d.a
        if v.op == 'phi' and v.a[2] == self.g.uid:
            cs = self.cases(v)
            if cs and len(cs) <= 6:
                r = False
                for gd, x in cs:
                    y = V.discr(x, adt)
                    t = (num(y) == val) if num(y) is not None else self.discr_atom(y, val)
                    r = B.OR(r, B.AND(gd, t))
                return r
        if v.op == 'tryint' :
            pass
        two = adt in TWO
        if not two:
            ad = self.P.adts.get(adt)
            two = bool(ad) and len(ad['variants']) == 2
        atom = lambda k: B.var(mk('eq0', from_poly(padd(poly(mk('discr', nf(v), adt)), pconst(k), -1))))
        if two:
            if val == 1: return atom(1)
            if val == 0: return B.NOT(atom(1))
        return atom(val)
    def edge(self, b, s):
        """condition under which block b goes on to s"""
        k = (b, s)
        if k in self._ec: return self._ec[k]
        t = self.f.blocks[b].term
        if t[0] != 'switch': r = True
        else:
            c = self.g.cond[b]
            isbool = self.g.op_ty(t[1]) == 'bool' or c.op in ('lt', 'flt', 'eq', 'not') or isb(c)
            r = False; rest = True
            for v, tgt in t[2]:
                if isbool:
                    F = self.formula(c); x = F if v else B.NOT(F)
                elif num(c) is not None: x = (num(c) == v)
                elif c.op == 'discr': x = self.discr_atom(c, v)
                else: x = self.formula(mk('eq', c, const(v)) if c.id < const(v).id else mk('eq', const(v), c))
                rest = B.AND(rest, B.NOT(x))
                if tgt == s: r = B.OR(r, x)
            if t[3] == s: r = B.OR(r, rest)
        self._ec[k] = r
        return r
    def guard(self, b, frm=None):
        """condition for reaching b from frm (a dominator; default: header of the innermost loop or entry)"""
        if frm is None:
            frm = self.loop(b)
            if frm is None: frm = self.f.entry
        k = (b, frm)
        if k in self._guard: return self._guard[k]
        # blocks that can reach b without taking a back edge
        need = {b}; work = [b]
        while work:
            x = work.pop()
            if x == frm: continue
            for p in self.preds(x):
                if p < x and p >= frm and p not in need: need.add(p); work.append(p)
                elif p < x and p >= frm: pass
        R = {frm: True}
        bch = set(self._inl[b])
        for x in sorted(need):
            if x == frm: continue
            acc = False
            for p in self.preds(x):
                if p >= x or p not in need: continue
                # leaving loops that do not contain x
                outl = [h for h in self._inl[p] if x not in self.loops[h] and h > frm or (h == frm and x not in self.loops[h] and frm != p and False)]
                outl = [h for h in outl if h in need]
                if outl:
                    h = max(outl, key=lambda h: len(self.loops[h]))      # outermost loop being left
                    acc = B.OR(acc, B.AND(R.get(h, False), self.exitcond(h, p, x)))
                else:
                    acc = B.OR(acc, B.AND(R.get(p, False), self.edge(p, x)))
            R[x] = acc
        self._guard[k] = R.get(b, False)
        return self._guard[k]
    def exits(self, h):
        if not hasattr(self, '_exits'): self._exits = {}
        if h not in self._exits:
            self._exits[h] = sorted({s for p in self.loops[h] for s in self.g.succ[p] if s not in self.loops[h] and self.live[s]})
        return self._exits[h]
    def exitcond(self, h, p, t):
        ex = [s for s in self.exits(h) if self.f.blocks[s].term[0] != 'unreach' or self.f.blocks[s].stmts]
        if t not in ex or len(ex) == 1: return True
        i = ex.index(t)
        r = True
        for j, s in enumerate(ex[:-1]):
            v = B.var(mk('exit', self.g.uid, h, s))
            if j == i: r = B.AND(r, v); break
            r = B.AND(r, B.NOT(v))
        return r
    def facts(self, b):
        """literals that hold whenever b executes (from branches that dominate it)"""
        if not hasattr(self, '_facts'): self._facts = {}
        if b in self._facts: return self._facts[b]
        d = self.idom[b]
        if d == b or d is None: r = True
        else:
            r = self.facts(d)
            # an edge d -> s all of whose continuation is the only way into b
            ps = self.preds(b)
            if len([p for p in ps if p < b or p == d]) == 1 and d in ps and not (b in self.loops and len(ps) == 1 and False):
                r = B.AND(r, self.edge(d, b))
            elif ps:
                lh = set(self._inl[b])
                try:
                    gg = self.guard(b, d)
                    r = B.AND(r, gg)
                except RecursionError: pass
        self._facts[b] = r
        return r
    def implied(self, b, node, val=True):
        F = self.formula(node)
        if not val: F = B.NOT(F)
        return implies(self.facts(b), F)
    def cases(self, n, frm=None):
        """non-loop phi -> [(condition from the dominator, value)]"""
        if n.op != 'phi' or n.a[2] != self.g.uid: return None
        if n in self._cases: return self._cases[n]
        b = n.a[0]
        self._cases[n] = None
        if b in self.loops: return None
        args = self.g.phi_args(n)
        if not args: return None
        d = self.idom[b]
        by = {}
        for p, v in args.items():
            outl = [h for h in self._inl[p] if b not in self.loops[h] and h > d]
            if outl:
                h = max(outl, key=lambda h: len(self.loops[h]))
                gd = B.AND(self.guard(h, d), self.exitcond(h, p, b))
                # the condition itself inside the loop is not expressible from outside
                if len({q for q in self.preds(b) if q in self.loops[h]}) > 1: 
                    gd = B.AND(gd, B.var(mk('exitedge', self.g.uid, h, p, b)))
            else:
                gd = B.AND(self.guard(p, d), self.edge(p, b))
            by[v] = B.OR(by.get(v, False), gd)
        r = [(gd, v) for v, gd in by.items()]
        self._cases[n] = r
        return r
    def values(self, n, seen=None):
        """all values a (possibly nested, non-loop) phi can take, flattened, with conditions"""
        out = []
        def go(x, gd, d):
            cs = self.cases(x) if d else None
            if not cs: out.append((gd, x)); return
            for c, v in cs: go(v, B.AND(gd, c), d - 1)
        go(n, True, 6)
        return out

    # ----- loops
    def entry_args(self, phi):
        h = phi.a[0]; L = self.loops.get(h)
        if not L: return None, None
        a = self.g.phi_args(phi)
        return [v for p, v in a.items() if p not in L], [v for p, v in a.items() if p in L]
    def induction(self, phi):
        """-> (init, step) for a header phi that changes by a constant on every way round"""
        if phi.op != 'phi' or phi.a[2] != self.g.uid or phi.a[0] not in self.loops: return None
        e, bk = self.entry_args(phi)
        if e is None or len(set(nf(x) for x in e)) != 1 or not bk: return None
        st = set()
        for v in bk:
            for gd, x in self.values(v):
                d = diff(x, phi)
                st.add(d)
        if len(st) != 1 or None in st: return None
        return e[0], st.pop()
    def range_of(self, n, b):
        """n used at block b: (init value, inclusive?, bound, step) normalised to (lo, hi_exclusive, dir, header) or None"""
        p = poly(nf(n))
        # find an induction phi in it
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and p[m] == 1:
                ph = m[0][0]
                ind = self.induction(ph)
                if not ind: continue
                init, step = ind
                off = padd(p, patom(ph), -1)
                fc = self.facts(b)
                if step > 0:
                    bound = self.upper(ph, b)
                    if bound is None: continue
                    lo = padd(poly(init), off); hi = padd(poly(bound), off)
                    return from_poly(lo), from_poly(hi), int(step), ph.a[0]
                if step < 0:
                    # counts down: uses ph-1 while lo < ph
                    lowb = self.lower(ph, b)
                    if lowb is None: continue
                    lo = padd(poly(lowb), off); hi = padd(padd(poly(init), off), pconst(1))
                    return from_poly(lo), from_poly(hi), int(step), ph.a[0]
        return None
    def lits(self, b):
        f = self.facts(b)
        if isinstance(f, bool): return []
        out = []
        for a in B.support(f):
            if B.restrict(f, {a: False}) is False: out.append((a, True))
            elif B.restrict(f, {a: True}) is False: out.append((a, False))
        return out
    def upper(self, ph, b):
        """bound such that ph < bound is established at b"""
        res = []
        for a, v in self.lits(b):
            p = poly(a.a[0]) if a.op in ('le0', 'eq0') else None
            if p is None: continue
            k = ((ph, 1),)
            if k not in p: continue
            c = p[k]
            if a.op == 'eq0':
                if not v and abs(c) == 1:      # ph != bound
                    r = padd(p, patom(ph), -c)
                    res.append((1, from_poly({m: -x / c for m, x in r.items()})))
                continue
            r = padd(p, patom(ph), -c)
            if v and c == 1: res.append((0, from_poly(padd(pconst(1), r, -1))))     # ph + r <= 0
            if not v and c == -1: res.append((0, from_poly(r)))                       # not(r - ph <= 0): ph < r
        res.sort(key=lambda t: t[0])
        return res[0][1] if res else None
    def lower(self, ph, b):
        """inclusive lower bound established for ph at b"""
        res = []
        for a, v in self.lits(b):
            if a.op not in ('le0', 'eq0'): continue
            p = poly(a.a[0]); k = ((ph, 1),)
            if k not in p: continue
            c = p[k]; r = padd(p, patom(ph), -c)
            if a.op == 'eq0':
                if not v and abs(c) == 1: res.append((1, from_poly(padd(pconst(1), {m: -x / c for m, x in r.items()}))))
                continue
            if not v and c == 1: res.append((0, from_poly(padd(pconst(1), r, -1))))   # ph + r >= 1
            if v and c == -1: res.append((0, from_poly(r)))                             # ph >= r
        res.sort(key=lambda t: t[0])
        return res[0][1] if res else None

    # ----- reachability
    def reach(self, start, without=(), edges_without=()):
        seen = set(); st = [s for s in start if s not in without]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for s in self.g.succ[x]:
                if s not in without and (x, s) not in edges_without and self.live[s] and s not in seen: st.append(s)
        return seen
    def events(self, kind=None):
        return [e for e in self.g.events if (kind is None or e.kind == kind) and self.live[e.blk]]

_flatc = {}
def load(dirs):
    P = Program(dirs); FL.set_prog(P)
    return P
_q = {}
def analyse(P, path, opaque=(), **kw):
    k = (path, tuple(sorted(opaque)), tuple(sorted(kw.items())))
    if k not in _q:
        F = FL.Flattener(P, opaque=set(opaque), **kw)
        f = F.flatten(path)
        g = V.VG(f, P)
        _q[k] = Q(g)
    return _q[k]

# ---------------------------------------------------------------- substitution and effects
def subst(n, m, memo=None):
    """replace nodes by others and renormalise"""
    if memo is None: memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x in m: r = m[x]; memo[x] = r; return r
        op, a = x.op, x.a
        if op == 'phi':
            r = x
            for k in range(len(a[1]) - 1, 0, -1):
                base = mk('phi', a[0], a[1][:k], a[2])
                if base in m:
                    r = m[base]
                    for s in a[1][k:]: r = fld(r, s)
                    break
        elif op in ('const', 'undef', 'param', 'static', 'constdef', 'fnptr', 'any'): r = x
        elif op == 'poly':
            p = {}
            for mono, c in a[0]:
                t = pconst(c)
                for at, e in mono:
                    y = go(at)
                    q = poly(y)
                    if e < 0: q = pinv(y); 
                    for _ in range(abs(e)): t = pmul(t, q)
                p = padd(p, t)
            r = from_poly(p)
        elif op in ('le0', 'eq0', 'flt0', 'fle0'):
            y = go(a[0])
            if y is a[0]: r = x
            elif op == 'le0': r = cmp_nf('lt', y, const(1))
            elif op == 'eq0': r = cmp_nf('eq', y, const(0))
            elif op == 'flt0': r = cmp_nf('flt', y, const(0))
            else: r = V.neg(cmp_nf('flt', const(0), y))
        elif op == 'fld': r = fld(go(a[0]), a[1])
        elif op == 'elem': r = elem(go(a[0]), go(a[1]))
        elif op == 'sel': r = sel(go(a[0]), tuple(go(y) for y in a[1]))
        elif op == 'store': r = V.store(go(a[0]), tuple(go(y) for y in a[1]), go(a[2]))
        elif op == 'not': r = V.neg(go(a[0]))
        elif op in ('and', 'or', 'xor'): r = V.binop(op, go(a[0]), go(a[1]))
        elif op in ('lt', 'flt'): r = V.lt(go(a[0]), go(a[1]), op == 'flt')
        elif op == 'eq': r = V.eq(go(a[0]), go(a[1]))
        elif op == 'discr': r = V.discr(go(a[0]), a[1])
        elif op == 'agg': 
            nv = tuple(go(y) for y in a[4])
            r = V.agg(a[0], a[1], a[2], a[3], nv) if nv != a[4] else x
        elif op in ('add', 'sub', 'mul', 'min', 'max', 'fdiv', 'div'): r = V.binop(op, go(a[0]), go(a[1]))
        elif op in ('mins', 'maxs'):
            y = [go(z) for z in a[0]]
            r = y[0]
            for z in y[1:]: r = V.binop(op[:-1], r, z)
            r = nf(r)
        else:
            def ga(y):
                if isinstance(y, N): return go(y)
                if isinstance(y, tuple): return tuple(ga(z) for z in y)
                return y
            na = tuple(ga(y) for y in a)
            r = mk(op, *na) if na != a else x
        memo[x] = r
        return r
    return go(n)

def walk_nodes(n, stop=None):
    """all nodes below n (memory versions and polynomials included)"""
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if stop and stop(x): continue
        def ad(y):
            if isinstance(y, N): st.append(y)
            elif isinstance(y, tuple):
                for z in y: ad(z)
        for y in x.a: ad(y)
    return seen

def fsubst(self, F, m):
    """substitute inside a decision diagram"""
    memo = {}; am = {}
    def go(x):
        if isinstance(x, bool): return x
        r = memo.get(id(x))
        if r is not None: return r
        at = B.atoms[x[0]]
        y = subst(at, m)
        c = self.formula(y) if y is not at else B.var(at)
        r = B.ite(c, go(x[2]), go(x[1]))
        memo[id(x)] = r
        return r
    return go(F)
Q.fsubst = fsubst
def fatoms(F): return B.support(F)

def latches(self, h):
    return [p for p in self.preds(h) if p in self.loops[h]]
Q.latches = latches
def header_phis(self, h):
    return [mk('phi', b, k, self.g.uid) for (b, k) in self.g.phis if b == h]
Q.header_phis = header_phis
def back_map(self, h, latch):
    r = {}
    for ph in self.header_phis(h):
        v = self.g.phi_args(ph).get(latch)
        if v is not None: r[ph] = v
    return r
Q.back_map = back_map
def entry_map(self, h):
    """initial values of the header phis; None if there are several different ones"""
    r = {}
    for ph in self.header_phis(h):
        vs = {v for p, v in self.g.phi_args(ph).items() if p not in self.loops[h]}
        if len(vs) == 1: r[ph] = vs.pop()
    return r
Q.entry_map = entry_map

def ptr_targets(self, n, seen=None):
    """what a pointer value can point to: set of ('loc', key) / ('opaque', node)"""
    seen = seen if seen is not None else set()
    if n in seen: return set()
    seen.add(n)
    if n.op in ('ref', 'sref'): 
        k0 = n.a[0][0]
        if isinstance(k0, tuple) and k0[0] == 'O' and k0[1].op == 'phi':
            return {('loc', k + n.a[0][1:]) if t == 'loc' else (t, k) for t, k in self.ptr_targets(k0[1], seen)}
        return {('loc', n.a[0])}
    if n.op == 'phi' and n.a[2] == self.g.uid:
        r = set()
        for v in self.g.phi_args(n).values():
            if v.op == 'undef': continue
            r |= self.ptr_targets(v, seen)
        return r
    if n.op == 'undef': return set()
    return {('opaque', n)}
Q.ptr_targets = ptr_targets

class Eff:
    """one write to memory the caller can see: key = symbolic place, val/old = new and previous content (None for a call)"""
    def __init__(s, ev, keys, idxs, val, old, call=None):
        s.ev = ev; s.keys = keys; s.idxs = idxs; s.val = val; s.old = old; s.call = call; s.blk = ev.blk
    def paths(s): return {tuple(x for x in k[1:] if isinstance(x, str) and x != '*') for k in s.keys}
def is_local_key(k): return isinstance(k[0], int)
def effects(self):
    out = []
    for e in self.events():
        if e.kind == 'store':
            key, idxs, val = e.a[:3]; old = e.a[3] if len(e.a) > 3 else None
            r0 = key[0]
            if isinstance(r0, int): continue
            if r0[0] == 'O' and r0[1].op == 'phi':
                ks = {(k + key[1:]) if t == 'loc' else (('O', k),) + key[1:] for t, k in self.ptr_targets(r0[1])}
                ks = {k for k in ks if not is_local_key(k)}
                if not ks: continue
            else: ks = {key}
            out.append(Eff(e, ks, idxs, val, old))
        elif e.kind == 'call':
            name, ci, vals, dv, r = e.a
            aty = ci.get('_aty') or []
            ks = set()
            for i, v in enumerate(vals):
                t = aty[i] if i < len(aty) else ('?',)
                muts = []
                if t[0] == '&mut': muts = [v]
                elif v.op == 'agg' and (V.has_mut(t) or v.a[0] == 'closure' or any(x.op == 'agg' and x.a[0] == 'closure' for x in v.a[4])): muts = V.mut_refs(v, self.P)
                for x in muts:
                    for t2, k in self.ptr_targets(x):
                        if t2 == 'loc':
                            if not is_local_key(k): ks.add(k)
                        else: ks.add((('O', k),))
            if ks: out.append(Eff(e, ks, (), None, None, name))
    return out
Q.effects = effects

def leaf_changes(val, old, path=()):
    """componentwise differences between two values of one place: [(path, new, old)]"""
    if old is not None and same(val, old): return []
    if val.op == 'agg' and val.a[2] is None and val.a[3] and val.a[1] != 'box':
        r = []
        for nm, v in zip(val.a[3], val.a[4]): r += leaf_changes(v, fld(old, nm) if old is not None else None, path + (nm,))
        return r
    if val.op == 'upd' and old is not None and (same(val.a[0], old)):
        r = []
        for rel, v in val.a[1]:
            o = old
            for k in rel: o = fld(o, k) if k != '[]' else None
            r.append((path + tuple(rel), v, o))
        return r
    return [(path, val, old)]
