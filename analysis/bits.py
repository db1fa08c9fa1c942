"""Bit-level evaluation of value-graph nodes: every bit of an integer as a decision diagram over the bits of its inputs."""
from q import *
import q as Qm
BB = BDD()
W = 64
_ty = {}
def declare(n, ty): _ty[nf(n)] = ty; _ty[n] = ty
UT = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'bool': 1}
class Bits:
    def __init__(self, q, adts=None):
        self.q = q; self.memo = {}; self.P = q.P if q is not None else None
    def width(self, n):
        t = _ty.get(n)
        if t is None and n.op == 'param' and self.q is not None and n.a[0] == self.q.g.uid:
            t = self.q.f.locals[n.a[1]] if n.a[1] < len(self.q.f.locals) else None
            if isinstance(t, (list, tuple)): t = t[0]
        if t is None and n.op == 'fld' and self.P: t = field_ty(self.P, n)
        return UT.get(t, W)
    def bits(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._bits(n); self.memo[n] = r
        return r
    def cst(self, v): return [bool(v >> k & 1) for k in range(W)]
    def _bits(self, n):
        op, a = n.op, n.a
        if op == 'const':
            v = a[0]
            if isinstance(v, bool): return self.cst(int(v))
            if isinstance(v, int): return self.cst(v & ((1 << W) - 1))
        if op == 'poly' or op in ('add', 'sub', 'mul', 'neg', 'ncast'):
            p = poly(n); acc = self.cst(0); ok = all(c.denominator == 1 for c in p.values())
            if ok:
                for m, c in sorted(p.items(), key=lambda t: tuple(x.id for x, e in t[0])):
                    if m == (): t = self.cst(int(c) & ((1 << W) - 1)); acc = self.add(acc, t); continue
                    if len(m) != 1 or m[0][1] != 1 or m[0][0] is n: ok = False; break
                    x = self.bits(m[0][0]); t = self.cst(0); cc = abs(int(c)); k = 0
                    while cc:
                        if cc & 1: t = self.add(t, self.shl(x, k))
                        cc >>= 1; k += 1
                    if c < 0: t = self.add([BB.NOT(y) for y in t], self.cst(1))
                    acc = self.add(acc, t)
                if ok: return acc
        if op in ('and', 'or', 'xor'):
            x, y = self.bits(a[0]), self.bits(a[1])
            f = {'and': BB.AND, 'or': BB.OR, 'xor': lambda p, q: BB.ite(p, BB.NOT(q), q)}[op]
            return [f(p, q) for p, q in zip(x, y)]
        if op in ('bnot',): return [BB.NOT(x) for x in self.bits(a[0])]
        if op in ('shl', 'shr') and num(nf(a[1])) is not None:
            k = num(nf(a[1])); x = self.bits(a[0])
            return self.shl(x, k) if op == 'shl' else x[k:] + [False] * min(k, W)
        if op in ('idiv', 'div', 'rem') and num(nf(a[1])) is not None:
            d = num(nf(a[1]))
            if d > 0 and d & (d - 1) == 0:
                k = d.bit_length() - 1; x = self.bits(a[0])
                return x[k:] + [False] * k if op != 'rem' else x[:k] + [False] * (W - k)
        if op == 'cast':
            to, x, fr = a; b = UT.get(to); y = self.bits(x)
            if b: return y[:b] + [False] * (W - b)
        if op in ('min', 'max', 'mins', 'maxs'):
            xs = [self.bits(x) for x in (a[0] if op[-1] == 's' else a)]
            r = xs[0]
            for y in xs[1:]:
                le = self.le(r, y)
                c = le if op.startswith('min') else BB.NOT(le)
                r = [BB.ite(c, p, q) for p, q in zip(r, y)]
            return r
        if op == 'phi' and self.q is not None and a[2] == self.q.g.uid:
            cs = self.q.cases(n)
            if cs:
                r = self.cst(0)
                for gd, v in cs:
                    c = self.form(gd); b = self.bits(v)
                    r = [BB.ite(c, p, q) for p, q in zip(b, r)]
                return r
        if op in ('poly', 'add', 'sub', 'mul'):
            pass
        m = nf(n)
        if m is not n: return self.bits(m)
        if op == 'idiv' or op == 'tofloat': pass
        w = self.width(n)
        return [BB.var(mk('bit', n, k)) for k in range(w)] + [False] * (W - w)
    def shl(self, x, k): return ([False] * k + x)[:W]
    def add(self, x, y):
        c = False; r = []
        for p, q in zip(x, y):
            s = BB.ite(p, BB.NOT(q), q)
            r.append(BB.ite(s, BB.NOT(c), c))
            c = BB.OR(BB.AND(p, q), BB.AND(c, s))
        return r
    def le(self, x, y):
        r = True
        for p, q in zip(x, y):                # low to high
            r = BB.ite(p, BB.AND(q, r), BB.OR(q, r))
        return r
    def eqb(self, x, y, w=W):
        r = True
        for p, q in zip(x[:w], y[:w]): r = BB.AND(r, BB.NOT(BB.ite(p, BB.NOT(q), q)))
        return r
    def form(self, F):
        """decision diagram over conditions -> over bits"""
        if isinstance(F, bool): return F
        v, lo, hi = F
        c = self.atom(B.atoms[v])
        return BB.ite(c, self.form(hi), self.form(lo))
    def atom(self, a):
        if a.op in ('eq0', 'le0'):
            p = poly(a.a[0])
            if all(c.denominator == 1 for c in p.values()) and all(len(m) <= 1 and all(e == 1 for x, e in m) for m in p):
                pos = {m: c for m, c in p.items() if c > 0}; ng = {m: -c for m, c in p.items() if c < 0}
                x, y = self.bits(from_poly(pos)), self.bits(from_poly(ng))
                return self.eqb(x, y) if a.op == 'eq0' else self.le(x, y)
        if a.op == 'bit': return BB.var(a)
        return BB.var(a)
def field_ty(P, n):
    """type of a field, when every type that has such a field agrees"""
    nm = n.a[1].split('.')[-1] if isinstance(n.a[1], str) else None
    if not nm: return None
    if nm.isdigit():
        b = n.a[0]; t = field_ty(P, b) if b.op == 'fld' else None
        if b.op == 'elem' or b.op == 'sel': return None
        ad = P.adts.get(strip_gen(t)) if t else None
        for _ in range(3):
            if not ad or len(ad['variants']) != 1 or int(nm) >= len(ad['variants'][0]['fields']): return None
            t = ad['variants'][0]['fields'][int(nm)][1]
            if t in UT: return t
            ad = P.adts.get(strip_gen(t)); nm = '0'
        return t
    s = set()
    for pth, ad in P.adts.items():
        if not ad.get('local'): continue
        for v in ad['variants']:
            for f in v['fields']:
                if f[0] == nm: s.add(f[1])
    s = {t for t in s if t in UT} or s
    return s.pop() if len(s) == 1 else None
