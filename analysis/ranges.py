"""Value ranges from types and path facts: is a narrowing conversion or a narrow sum exact where it happens?"""
import re
from lib import *
import vg as V
import bits as BT
INF = float('inf')
def type_range(t):
    if t == 'bool': return 0, 1
    if t not in V.INT_BITS: return -INF, INF
    b = V.INT_BITS[t]
    return (-(1 << b - 1), (1 << b - 1) - 1) if V.signed(t) else (0, (1 << b) - 1)
def meet(a, b): return max(a[0], b[0]), min(a[1], b[1])
def join(a, b): return min(a[0], b[0]), max(a[1], b[1])
class Ranges:
    def __init__(self, P, q):
        self.P = P; self.q = q; self.memo = {}; self.ptypes = {}
    def leaf_type(self, n):
        if n.op == 'fld':
            t = BT.field_ty(self.P, n)
            if t: return t
            if n.a[1] == '#len': return 'usize'
        if n.op == 'sel':
            import grid
            t = self.place_type(grid.ver_key(n.a[0]))
            if t: return t
        if n.op in ('sel', 'elem', 'fld', 'init'):
            fr = field_read_name(n)
            if fr:
                s = set()
                for pth, ad in self.P.adts.items():
                    if not ad.get('local'): continue
                    for v in ad['variants']:
                        for f in v['fields']:
                            if f[0] == fr: s.add(f[1])
                if len(s) == 1:
                    t = s.pop()
                    m = re.match(r'.*<(u8|u16|u32|i8|i16|i32|usize)\b', t)
                    return m.group(1) if m and t not in V.INT_BITS else t
        if n.op == 'param':
            try:
                t = self.q.f.locals[n.a[1]][0]
                if len(t) == 1: return t[0]
            except Exception: pass
        return None
    def place_type(self, key):
        """type of a scalar place (local, field, '[]', ...) or None"""
        if not key or not isinstance(key[0], int): return None
        t = self.q.f.locals[key[0]][0]
        for x in key[1:]:
            while t and t[0] in ('&', '&mut', 'alloc::boxed::Box'): t = t[1]
            if x == '*': continue
            if not t: return None
            if x == '[]':
                if t[0] in ('[]', '[;]', 'alloc::vec::Vec'): t = t[1]; continue
                return None
            ad = self.P.adts.get(t[0])
            if not ad or len(ad['variants']) != 1: return None
            ft = [f[1] for f in ad['variants'][0]['fields'] if f[0] == x]
            if not ft: return None
            t = parse_ty(ft[0]) if isinstance(ft[0], str) else ft[0]
        return t[0] if t and len(t) == 1 else None
    def of(self, n, b, depth=12, ty=None):
        """interval of node n at block b"""
        v = num(n)
        if v is not None and not isinstance(v, tuple): return v, v
        key = (n, b, ty)
        old = self.memo.get(key)
        if old and old[0] >= depth: return old[1]
        r = old[1] if old else type_range(ty) if ty else (-INF, INF)
        if depth <= 0: return r
        self.memo[key] = (depth, r)
        r = self._of(n, b, depth, ty)
        self.memo[key] = (depth, r)
        return r
    def _of(self, n, b, depth, ty):
        r = type_range(ty) if ty else (-INF, INF)
        op, a = n.op, n.a
        sub = lambda x, t=None: self.of(x, b, depth - 1, t)
        try:
            if op == 'add': x, y = sub(a[0]), sub(a[1]); r = meet(r, (x[0] + y[0], x[1] + y[1]))
            elif op == 'sub': x, y = sub(a[0]), sub(a[1]); r = meet(r, (x[0] - y[1], x[1] - y[0]))
            elif op == 'neg': x = sub(a[0]); r = meet(r, (-x[1], -x[0]))
            elif op == 'mul':
                x, y = sub(a[0]), sub(a[1])
                c = [mul(p, s) for p in x for s in y]; r = meet(r, (min(c), max(c)))
            elif op == 'cast': r = meet(r, meet2(sub(a[1], a[2]), type_range(a[0])))
            elif op == 'ncast': r = meet(r, sub(a[0]))
            elif op == 'toint': r = meet(r, type_range(a[0]))
            elif op in ('min', 'mins'):
                xs = [sub(x) for x in (a[0] if op == 'mins' else a)]
                r = meet(r, (min(x[0] for x in xs), min(x[1] for x in xs)))
            elif op in ('max', 'maxs'):
                xs = [sub(x) for x in (a[0] if op == 'maxs' else a)]
                r = meet(r, (max(x[0] for x in xs), max(x[1] for x in xs)))
            elif op == 'abs':
                x = sub(a[0]); m = max(abs(x[0]), abs(x[1])); r = meet(r, (0, m))
            elif op == 'and':
                xs = [sub(x) for x in a]
                hi = min([x[1] for x in xs if x[0] >= 0] or [INF]); r = meet(r, (0, hi)) if hi < INF else r
            elif op == 'shr' and num(a[1]) is not None:
                x = sub(a[0], ty); k = num(a[1])
                if x[0] >= 0 and x[1] < INF: r = meet(r, (x[0] >> k, x[1] >> k))
            elif op == 'idiv' and num(a[1]):
                x = sub(a[0], ty); k = num(a[1])
                if k > 0 and x[0] >= 0 and x[1] < INF: r = meet(r, (x[0] // k, x[1] // k))
            elif op == 'rem' and num(a[1]): r = meet(r, (0 if sub(a[0])[0] >= 0 else -abs(num(a[1])) + 1, abs(num(a[1])) - 1))
            elif op == 'sat' and len(a) >= 3 and a[0] in ('add', 'sub'):
                x, y = sub(a[1]), sub(a[2])
                t = type_range(a[3]) if len(a) > 3 else (0, INF)
                z = (x[0] + y[0], x[1] + y[1]) if a[0] == 'add' else (x[0] - y[1], x[1] - y[0])
                r = meet(r, (min(max(z[0], t[0]), t[1]), max(min(z[1], t[1]), t[0])))
            elif op == 'poly':
                lo = hi = 0
                for m, c in poly(n).items():
                    x = (1, 1)
                    for at, e in m:
                        if e != 1: x = (-INF, INF); break
                        y = sub(at); cs = [mul(p, s) for p in x for s in y]; x = (min(cs), max(cs))
                    cs = sorted(mul(float(c) if c.denominator != 1 else int(c), p) for p in x); lo += cs[0]; hi += cs[1]
                r = meet(r, (lo, hi))
            elif op == 'phi':
                q = self.q
                ind = q.induction(n) if n.a[0] in q.loops else None
                if ind:
                    x = sub(ind[0])
                    r = meet(r, (x[0], INF) if ind[1] > 0 else (-INF, x[1]))
                elif n.a[0] not in q.loops:
                    xs = [self.of(v, p, depth - 2) for p, v in q.g.phi_args(n).items() if q.live[p]]
                    if xs: r = meet(r, (min(x[0] for x in xs), max(x[1] for x in xs)))
                else:
                    # a loop value: ranges of what it starts from and what it is replaced by
                    e, bk = q.entry_args(n)
                    xs = [sub(v) for v in (e or [])] + [self.of(v, p, depth - 3) for p, v in q.g.phi_args(n).items() if p in q.loops[n.a[0]] and q.live[p] and not any(y is n for y in walk_nodes(v))]
                    if xs and all(not any(y is n for y in walk_nodes(v)) or v is n for p, v in q.g.phi_args(n).items()):
                        r = meet(r, (min(x[0] for x in xs), max(x[1] for x in xs)))
                t = self.phi_type(n)
                if t: r = meet(r, type_range(t))
            else:
                t = self.leaf_type(n)
                if t: r = meet(r, type_range(t))
        except (OverflowError, ValueError): pass
        return self.refine(n, b, depth, r)
    def phi_type(self, n):
        k = n.a[1]
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], int):
            t = self.q.f.locals[k[0]][0]
            if len(t) == 1: return t[0]
        return None
    def refine(self, n, b, depth, r):
        if depth < 3: return r
        q = self.q; px = poly(n)
        if pisconst(px): return r
        F = q.facts(b)
        if isinstance(F, bool): return r
        k = max(px, key=lambda m: (len(m), [(a.id, e) for a, e in m]))
        for a in fatoms(F):
            if a.op not in ('le0', 'eq0'): continue
            p = poly(a.a[0])
            if k not in p or px[k] == 0: continue
            t = implies(F, B.var(a)); f = not t and implies(F, B.NOT(B.var(a)))
            if not t and not f: continue
            s = p[k] / px[k]
            rest = padd(p, {m: c * s for m, c in px.items()}, -1)      # p = s*x + rest
            if k in rest: continue
            rr = self.of(from_poly(rest), b, depth - 4)
            if t and a.op == 'le0':
                if s > 0: r = meet(r, (-INF, fl(-rr[0] / s)))
                else: r = meet(r, (ce(rr[0] / -s), INF))
            elif f and a.op == 'le0':           # p >= 1
                if s > 0: r = meet(r, (ce((1 - rr[1]) / s), INF))
                else: r = meet(r, (-INF, fl((rr[1] - 1) / -s)))
            elif t and a.op == 'eq0':
                lo, hi = sorted((-rr[0] / s, -rr[1] / s)); r = meet(r, (lo, hi))
            elif f and a.op == 'eq0' and rr[0] == rr[1]:
                x = -rr[0] / s
                if r[0] == x: r = (r[0] + 1, r[1])
                if r[1] == x: r = (r[0], r[1] - 1)
        return r
def meet2(x, t):
    return x if x[0] >= t[0] and x[1] <= t[1] else t
def mul(p, s):
    if p == 0 or s == 0: return 0
    return p * s
import math
def fl(x): return x if x in (INF, -INF) else math.floor(x)
def ce(x): return x if x in (INF, -INF) else math.ceil(x)
def field_read_name(n):
    import grid
    try: fr = grid.field_read(n)
    except Exception: return None
    return fr[0][-1] if fr and fr[0] and isinstance(fr[0][-1], str) else None

def inexact(P, q):
    """narrowing conversions that are not shown to keep their value -> [(to, from, value, block)]"""
    rg = Ranges(P, q); out = []; ok = 0
    for e in q.events('cast'):
        to, fr, a = e.a
        x = rg.of(a, e.blk, 12, fr); t = type_range(to)
        if x[0] >= t[0] and x[1] <= t[1]: ok += 1
        else: out.append((to, fr, a, e.blk, x))
    return ok, out
def overflowing(P, q, types=('u8', 'u16', 'i8', 'i16')):
    rg = Ranges(P, q); out = []; ok = 0
    for e in q.events('arith'):
        ty, a = e.a
        if ty not in types: continue
        x = rg.of(a, e.blk, 12); t = type_range(ty)
        if x[0] >= t[0] and x[1] <= t[1]: ok += 1
        else: out.append((ty, a, e.blk, x))
    return ok, out

NARROW = {'u8', 'i8', 'i16'}
SMALL = {'u8', 'i8', 'u16', 'i16'}
def narrowing(P, R, q, label, allow=()):
    """quantities of up to 16 bits keep their value through every conversion"""
    RULE = 'heights, thresholds and distances are not truncated'
    rg = Ranges(P, q); n = 0
    for e in q.events('cast'):
        to, fr, a = e.a
        if not (to in NARROW or fr in SMALL): continue
        n += 1
        x = rg.of(a, e.blk, 12, fr); t = type_range(to)
        if x[0] >= t[0] and x[1] <= t[1] or any(f(a) for f in allow): R.ok(RULE, '%s: %s as %s' % (label, shown(nf(a))[:60], to)); continue
        R.fail(RULE, '%s %s as %s' % (label, fr, to), 'in %s the %s value %s is converted to %s although it can be as large as %s' % (label, fr, shown(nf(a))[:120], to, x[1] if abs(x[1]) > abs(x[0]) else x[0]))
    R.ok(RULE, '%s: all %d conversions of small integers' % (label, n))
