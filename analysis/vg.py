"""Value graph: forward abstract interpretation of a Flat CFG into hash-consed value nodes.

Memory is a map from access paths to nodes; arrays are functional store chains with one version per element field;
joins create phi nodes. No path is enumerated and nothing is executed: it is global value numbering over the MIR."""
import flat as FL
from facts import *

class N:
    __slots__ = ('op', 'a', 'id', '_h')
    def __repr__(self): return show(self, 4)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
_next = [0]
def mk(op, *a):
    k = ('const', type(a[0]), a[0]) if op == 'const' else (op,) + a
    n = _tab.get(k)
    if n is None:
        n = N(); n.op = op; n.a = a; n.id = _next[0]; _next[0] += 1
        _tab[k] = n
    return n

UNDEF = mk('undef')
UNIT = mk('agg', 'tuple', None, None, (), ())

INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}
def is_int_ty(t): return t in INT_BITS
def signed(t): return t[0] == 'i'
def lossless(fr, to):
    if fr == to: return True
    if fr not in INT_BITS or to not in INT_BITS: return False
    if fr in ('bool', 'char') : return INT_BITS[to] >= INT_BITS[fr]
    if signed(fr) and not signed(to): return False
    if not signed(fr) and signed(to): return INT_BITS[to] > INT_BITS[fr]
    return INT_BITS[to] >= INT_BITS[fr]

def const(v, ty=None):
    return mk('const', v)
TRUE = const(True); FALSE = const(False)
ZERO = const(0)

def is_const(n): return n.op == 'const'

def agg(kind, path, var, names, vals):
    # eta: rebuilding a value from all its own fields
    if vals and kind == 'adt' and var is None:
        v0 = vals[0]
        if v0.op == 'fld' and v0.a[1] == names[0]:
            base = v0.a[0]
            if all(v.op == 'fld' and v.a[0] is base and v.a[1] == n for v, n in zip(vals, names)) and eta_ok(path, names, base):
                return base
        if v0.op == 'phi' and v0.a[1][-1] == names[0] and len(v0.a[1]) > 1:
            base = mk('phi', v0.a[0], v0.a[1][:-1], v0.a[2])
            if all(v.op == 'phi' and v.a[0] == v0.a[0] and v.a[1] == v0.a[1][:-1] + (n,) for v, n in zip(vals, names)) and eta_ok(path, names, base):
                return base
    return mk('agg', kind, path, var, tuple(names), tuple(vals))

def eta_ok(path, names, base):
    return path in ('models::V2', 'models::V3') and (len(names) == 3 or path == 'models::V2') and not (len(names) == 2)

def fld(v, name):
    op = v.op
    if op == 'agg':
        kind, path, var, names, vals = v.a
        nm = name
        if var is not None:
            pre, _, rest = name.partition('.')
            if name.startswith('#') : return mk('fld', v, name)
            if pre != var or not rest: return UNDEF
            nm = rest
        elif '.' in name and name.split('.')[0].isalpha() and path and path.split('::')[-1] == name.split('.')[0]:
            nm = name.split('.', 1)[1]
        for n, x in zip(names, vals):
            if n == nm: return x
        return mk('fld', v, name)
    if op == 'upd':
        base, ch = v.a
        sub = []; exact = None
        for rel, x in ch:
            if rel[0] == name:
                if len(rel) == 1: exact = x
                else: sub.append((rel[1:], x))
        b = exact if exact is not None else fld(base, name)
        return upd(b, sub)
    if op == 'phi':
        return mk('phi', v.a[0], v.a[1] + (name,), v.a[2])
    if op == 'undef': return v
    if op == 'vecfill':
        if name == '#len': return v.a[1]
    if op == 'vec0':
        if name == '#len': return ZERO
    if op == 'arr':
        if name == '#len': return const(len(v.a))
    if op == 'tryint' and name == 'Ok.0': return cast(v.a[0], v.a[1], v.a[2])
    if op == 'checked' and name == 'Some.0': return binop(v.a[0], v.a[1], v.a[2])
    if op == 'veccast':
        pass
    return mk('fld', v, name)

def upd(base, ch):
    ch = list(ch)
    if not ch: return base
    if base.op == 'upd':
        d = dict(base.a[1])
        for rel, x in ch:
            for k in [k for k in d if k[:len(rel)] == rel]: del d[k]
            d[rel] = x
        ch = list(d.items()); base = base.a[0]
    if base.op == 'agg' and base.a[2] is None:
        kind, path, var, names, vals = base.a
        vals = list(vals); rest = []
        bysub = {}
        for rel, x in ch:
            if rel[0] in names:
                bysub.setdefault(rel[0], []).append((rel[1:], x))
            else: rest.append((rel, x))
        for f, l in bysub.items():
            i = names.index(f)
            b = vals[i]; sub = []
            for r, x in l:
                if r == (): b = x
            for r, x in l:
                if r != (): sub.append((r, x))
            vals[i] = upd(b, sub)
        base = agg(kind, path, var, names, vals)
        ch = rest
        if not ch: return base
    return mk('upd', base, tuple(sorted(ch, key=lambda t: str(t[0]))))

def elem(v, i):
    """element i of container value v"""
    op = v.op
    if op == 'vecfill': return v.a[0]
    if op == 'arr':
        if is_const(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(v.a): return v.a[i.a[0]]
        return mk('elem', v, i)
    if op == 'agg' and v.a[0] == 'tuple' and num(i) is not None and 0 <= num(i) < len(v.a[4]): return v.a[4][num(i)]
    if op == 'vec0': return UNDEF
    if op == 'upd':
        base, ch = v.a
        sub = []; exact = None
        for rel, x in ch:
            if rel[0] == '[]':
                if len(rel) == 1: exact = sel(x, (i,))
                else: sub.append((rel[1:], sel(x, (i,)) if '[]' not in rel[1:] else mk('psel', x, (i,))))
        b = exact if exact is not None else elem(base, i)
        return upd(b, sub)
    if op == 'undef': return v
    return mk('elem', v, i)

def project(v, rel, idxs):
    k = 0
    for e in rel:
        if e == '[]': v = elem(v, idxs[k]); k += 1
        else: v = fld(v, e)
    return v

def lift(v, rel, k):
    if not rel: return v
    if v.op == 'lift' :
        v0, r0, k0 = v.a
        return lift(v0, r0 + tuple(rel), k0)
    if k == 0:
        i = 0
        # consume leading plain fields eagerly
        while i < len(rel) and rel[i] != '[]':
            v = fld(v, rel[i]); i += 1
        rel = rel[i:]
        if not rel: return v
        if v.op == 'upd':
            base, ch = v.a
            for r, x in ch:
                if r == tuple(rel): return x
        if v.op == 'vecfill' and rel == ('[]',): return mk('fillv', v.a[0])
    return mk('lift', v, tuple(rel), k)

def sel(ver, idxs):
    idxs = tuple(idxs)
    if not idxs: return ver
    while True:
        op = ver.op
        if op == 'store':
            v0, ii, x = ver.a
            c = cmp_idx(ii, idxs)
            if c is True: return x
            if c is False: ver = v0; continue
            return mk('sel', ver, idxs)
        if op == 'fillv': return ver.a[0]
        if op == 'lift':
            v, rel, k = ver.a
            e = sel(v, idxs[:k])
            return project(e, rel, idxs[k:])
        if op == 'undef': return ver
        if op == 'psel': return sel(ver.a[0], ver.a[1] + idxs)
        return mk('sel', ver, idxs)

def cmp_idx(a, b):
    if a == b: return True
    if len(a) != len(b): return None
    for x, y in zip(a, b):
        if x is y: continue
        if distinct(x, y): return False
    return None
def distinct(x, y):
    if is_const(x) and is_const(y): return x.a[0] != y.a[0]
    d = lin_diff(x, y)
    return d is not None and d != 0
def lin_const(n):
    """n = base + c"""
    c = 0
    while n.op in ('add', 'sub') :
        if n.op == 'add':
            if is_const(n.a[1]) and isinstance(n.a[1].a[0], int): c += n.a[1].a[0]; n = n.a[0]
            elif is_const(n.a[0]) and isinstance(n.a[0].a[0], int): c += n.a[0].a[0]; n = n.a[1]
            else: break
        else:
            if is_const(n.a[1]) and isinstance(n.a[1].a[0], int): c -= n.a[1].a[0]; n = n.a[0]
            else: break
    return n, c
def lin_diff(x, y):
    bx, cx = lin_const(x); by, cy = lin_const(y)
    if bx is by: return cx - cy
    return None

def store(ver, idxs, x):
    idxs = tuple(idxs)
    if ver.op == 'store' and ver.a[1] == idxs: ver = ver.a[0]
    if sel(ver, idxs) is x and x.op != 'undef': return ver
    return mk('store', ver, idxs, x)

def cast(to, x, fr):
    if fr is not None and lossless(fr, to): return x
    if is_const(x):
        v = x.a[0]
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int) and to in INT_BITS:
            b = INT_BITS[to]; v &= (1 << b) - 1
            if signed(to) and v >> (b - 1): v -= 1 << b
            return const(v)
        if isinstance(v, int) and to in ('f32', 'f64'): return const(('f', float(v)))
    if to in ('f32', 'f64') and fr in INT_BITS: return mk('tofloat', x)
    if to in ('f32', 'f64') and fr in ('f32', 'f64'): return x
    if fr in ('f32', 'f64') and to in INT_BITS: return mk('toint', to, x)
    return mk('cast', to, x, fr)

BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
       'Shl': 'shl', 'Shr': 'shr', 'AddUnchecked': 'add', 'SubUnchecked': 'sub', 'MulUnchecked': 'mul', 'ShlUnchecked': 'shl', 'ShrUnchecked': 'shr'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'min', 'max', 'eq'}

def isb(n): return is_const(n) and isinstance(n.a[0], bool)
def num(n):
    if is_const(n):
        v = n.a[0]
        if isinstance(v, bool): return None
        if isinstance(v, int): return v
    return None

def binop(op, a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        try:
            if op == 'add': return const(x + y)
            if op == 'sub': return const(x - y)
            if op == 'mul': return const(x * y)
            if op == 'and': return const(x & y)
            if op == 'or': return const(x | y)
            if op == 'xor': return const(x ^ y)
            if op == 'shl' and 0 <= y < 64: return const(x << y)
            if op == 'shr' and 0 <= y < 64: return const(x >> y)
            if op == 'min': return const(min(x, y))
            if op == 'max': return const(max(x, y))
            if op == 'div' and y: return const(int(x / y) if abs(x) < 1 << 50 else x // y)
            if op == 'rem' and y and x >= 0 and y > 0: return const(x % y)
        except Exception: pass
    if op == 'add':
        if x == 0: return b
        if y == 0: return a
        # (p - c) + c' on constants
        if y is not None or x is not None:
            base, c = lin_const(a if y is not None else b)
            c += y if y is not None else x
            if base is not (a if y is not None else b):
                if c == 0: return base
                if c > 0: return mk('add', base, const(c))
                return mk('sub', base, const(-c))
            if y is None: return mk('add', b, a)
            return mk('add', a, b)
    if op == 'sub':
        if y == 0: return a
        if a is b and a.op != 'undef': return ZERO
        if y is not None:
            base, c = lin_const(a)
            if base is not a:
                c -= y
                if c == 0: return base
                if c > 0: return mk('add', base, const(c))
                return mk('sub', base, const(-c))
    if op == 'mul':
        if x == 1: return b
        if y == 1: return a
    if op in ('and', 'or'):
        if isb(a):
            if op == 'and': return b if a.a[0] else FALSE
            return TRUE if a.a[0] else b
        if isb(b): return binop(op, b, a)
        if a is b: return a
    if op in ('min', 'max') and a is b: return a
    if op in COMM and b < a and op != 'add':
        a, b = b, a
    elif op == 'add' and b < a and not is_const(b): a, b = b, a
    return mk(op, a, b)

FLOATS = ('f32', 'f64')
UNS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
def isf(n):
    return n.op in ('tofloat', 'sqrt', 'floor', 'ceil', 'fdiv', 'round') or n.op == 'const' and isinstance(n.a[0], tuple) and n.a[0][0] == 'f'
def fval(n):
    if is_const(n) and isinstance(n.a[0], tuple) and n.a[0][0] == 'f' and isinstance(n.a[0][1], float): return n.a[0][1]
def lt(a, b, fl=False, uns=False):
    x, y = num(a), num(b)
    if x is not None and y is not None: return const(x < y)
    if uns:
        if x == 0: return neg(eq(b, a))
        if y == 1: return eq(a, ZERO)
        if y == 0: return FALSE
    if fl or isf(a) or isf(b): return mk('flt', a, b)
    return mk('lt', a, b)
def neg(b):
    if isb(b): return const(not b.a[0])
    if b.op == 'not': return b.a[0]
    return mk('not', b)
def eq(a, b):
    if a is b and a.op not in ('undef',): return TRUE
    if is_const(a) and is_const(b): return const(a.a[0] == b.a[0])
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[2] == b.a[2] and a.a[3] == b.a[3]:
        r = TRUE
        for u, v in zip(a.a[4], b.a[4]): r = binop('and', r, eq(u, v))
        return r
    if a.op == 'agg' and b.op == 'agg' and a.a[2] is not None and b.a[2] is not None and a.a[2] != b.a[2] and a.a[1] == b.a[1]: return FALSE
    for u, v in ((a, b), (b, a)):
        if u.op == 'agg' and u.a[0] == 'adt' and v.op != 'agg':
            if u.a[2] is not None:
                d = FL.discr_of(u.a[1], u.a[2])
                if d is not None:
                    r = eq(discr(v, u.a[1]), const(d))
                    for nme, x in zip(u.a[3], u.a[4]): r = binop('and', r, eq(fld(v, u.a[2] + '.' + nme), x))
                    return r
            elif len(u.a[4]) == 1: return eq(fld(v, u.a[3][0]), u.a[4][0])
        if isb(u):
            return v if u.a[0] else neg(v)
    if b < a: a, b = b, a
    return mk('eq', a, b)

def discr(v, adt):
    if v.op == 'agg' and v.a[2] is not None:
        d = FL.discr_of(adt or v.a[1], v.a[2])
        if d is not None: return const(d)
    if v.op == 'discrconst': return v.a[0]
    return mk('discr', v, adt)

def conv_const(k):
    """constant operand -> node"""
    ty = k.get('ty')
    if 'fn' in k: return mk('fnptr', k.get('res') or k['fn'])
    if 'v' in k and k['v'] is not None:
        return conv_v(k['v'], ty)
    if 'static' in k: return mk('ref', (('S', k['static']),), ())
    if 'def' in k: return mk('constdef', k['def'])
    if 'param' in k: return mk('constparam', str(k['param']))
    if ty == '()': return UNIT
    if ty and ty.startswith('fn('):
        return mk('fnptr', ty)
    return mk('constdef', str(sorted((a, str(b)) for a, b in k.items())))

def conv_v(v, ty):
    if isinstance(v, bool): return const(v)
    if isinstance(v, int): return const(v)
    if isinstance(v, str): return const(('s', v))
    if isinstance(v, list):
        return mk('arr', *[conv_v(x, None) for x in v])
    if isinstance(v, dict):
        if 'f' in v:
            try: return const(('f', float(v['f'])))
            except Exception: return const(('f', v['f']))
        if 's' in v: return const(('s', v['s']))
        if 'c' in v: return const(('c', v['c']))
        if 'tup' in v:
            if ty and ty.startswith('['): return mk('arr', *[conv_v(x, None) for x in v['tup']])
            return mk('agg', 'tuple', None, None, tuple(str(i) for i in range(len(v['tup']))), tuple(conv_v(x, None) for x in v['tup']))
        if 'arr' in v: return mk('arr', *[conv_v(x, None) for x in v['arr']])
        if 'adt' in v:
            path = strip_gen(v['adt'])
            if path in FL.VECS:
                leaves = []
                def walk(x):
                    if isinstance(x, dict) and 'f' not in x:
                        for y in x.get('fields') or x.get('tup') or x.get('arr') or []: walk(y)
                    elif isinstance(x, list):
                        for y in x: walk(y)
                    else: leaves.append(conv_v(x, None))
                walk(v)
                n = FL.VECS[path]
                if len(leaves) >= n:
                    return mk('agg', 'adt', 'models::V%d' % n, None, ('x', 'y', 'z')[:n], tuple(leaves[:n]))
            a = FL._PROG.adts.get(path)
            fs = [conv_v(x, None) for x in v.get('fields') or []]
            if a:
                isenum = a['kind'].lower() == 'enum'
                for vv in a['variants']:
                    if vv['name'] == v.get('var'):
                        return mk('agg', 'adt', path, v['var'] if isenum else None, tuple(x[0] for x in vv['fields']), tuple(fs))
            isenum = path in FL.STD_DISCR
            return mk('agg', 'adt', path, v.get('var') if isenum else None, tuple(str(i) for i in range(len(fs))), tuple(fs))
    return mk('constv', str(v))

# ---------------------------------------------------------------- interpreter
class State:
    __slots__ = ('m',)
    def __init__(self, m=None): self.m = m if m is not None else {}
    def copy(self): return State(dict(self.m))    # inner dicts are copy-on-write

IMPURE_HINT = ('rand', 'Instant', 'SystemTime')

class Event:
    __slots__ = ('kind', 'blk', 'i', 'a', 'org')
    def __init__(self, kind, blk, i, a, org): self.kind = kind; self.blk = blk; self.i = i; self.a = a; self.org = org

class VG:
    def __init__(self, f, prog, param_types=True, name=None, impure=()):
        self.f = f; self.p = prog
        self.uid = name or f.path
        self.phis = {}
        self.events = []
        self.rec = False
        self.warn = []
        self.impure = set(impure)
        self.blk = 0; self.si = 0
        self.sticky = set(); self.passno = 0
        self.analyse()

    # ----- memory
    def rd(self, st, key, idxs):
        if key[-1] == '[v]':
            j = num(idxs[-1])
            if j in (0, 1, 2): return self.rd(st, key[:-1] + ('xyz'[j],), idxs[:-1])
            return mk('vsel', self.rd(st, key[:-1], idxs[:-1]), idxs[-1])
        root = key[0]; path = key[1:]
        m = st.m.get(root)
        if not m:
            return project(self.init(root), path, idxs)
        v = None; n = len(path)
        if path in m: L = n; v = m[path]
        else:
            L = -1
            for l in range(n - 1, -1, -1):
                if path[:l] in m: L = l; v = m[path[:l]]; break
            if L < 0: L = 0; v = self.init(root)
        k = path[:L].count('[]')
        v = sel(v, idxs[:k])
        v = project(v, path[L:], idxs[k:])
        # children overrides
        ch = None
        for q in m:
            if len(q) > n and q[:n] == path:
                if ch is None: ch = []
                x = m[q]
                kk = len(idxs)
                if kk: x = sel(x, idxs) if q.count('[]') == kk else mk('psel', x, tuple(idxs))
                ch.append((q[n:], x))
        if ch:
            ch.sort(key=lambda t: (len(t[0]), str(t[0])))
            v = upd(v, ch)
        return v

    def init(self, root):
        if isinstance(root, tuple):
            if root[0] == 'O': return mk('deref', root[1])
            return mk('static', root[1])
        if 1 <= root <= self.f.argc: return mk('param', self.uid, root)
        return UNDEF

    def version(self, st, root, path):
        m = st.m.get(root) or {}
        if path in m: return m[path]
        L = -1; v = None
        for l in range(len(path) - 1, -1, -1):
            if path[:l] in m: L = l; v = m[path[:l]]; break
        if L < 0: L = 0; v = self.init(root)
        k = path[:L].count('[]')
        return lift(v, path[L:], k)

    def wr(self, st, key, idxs, val):
        root = key[0]; path = key[1:]
        m = st.m.get(root)
        m = dict(m) if m else {}
        n = len(path)
        nidx = path.count('[]')
        if nidx == 0:
            for q in [q for q in m if len(q) > n and q[:n] == path]: del m[q]
            m[path] = val
        else:
            ver = self.version(st, root, path)
            for q in [q for q in m if len(q) > n and q[:n] == path]:
                rel = q[n:]
                if '[]' in rel: m[q] = mk('store', m[q], tuple(idxs), lift(val, rel, 0))
                else: m[q] = store(m[q], idxs, project(val, rel, ()))
            m[path] = store(ver, idxs, val)
        st.m[root] = m

    # ----- places
    def place(self, st, p, want_slice=False):
        """-> ('loc', key, idxs) or ('sl', srefnode)"""
        key = (p[0],); idxs = ()
        cur = ('loc', key, idxs)
        for e in p[1:]:
            if e == '*':
                if cur[0] == 'sl': continue
                v = self.rd(st, cur[1], cur[2])
                cur = self.deref(v, cur)
            elif e[0] == 'f':
                if e[1].startswith('#'): continue      # Box internals
                if cur[0] == 'sl':
                    cur = ('loc', (('O', cur[1]), e[1]), ())
                else: cur = ('loc', cur[1] + (e[1],), cur[2])
            elif e[0] == 'i':
                i = self.rd(st, (e[1],), ())
                cur = self.index(cur, i)
            elif e[0] == 'ci':
                if e[2]:
                    ln = self.length(st, cur)
                    i = binop('sub', ln, const(e[1]))
                else: i = const(e[1])
                cur = self.index(cur, i)
            elif e[0] == 'ss':
                ln = self.length(st, cur)
                hi = binop('sub', ln, const(e[2])) if e[3] else const(e[2])
                cur = ('sl', self.subslice(cur, const(e[1]), binop('sub', hi, const(e[1]))))
        return cur

    def deref(self, v, cur=None):
        if v.op == 'ref': return ('loc', v.a[0], v.a[1])
        if v.op == 'sref': return ('sl', v)
        if v.op == 'agg' and v.a[1] == 'box' and cur is not None and cur[0] == 'loc':
            return ('loc', cur[1] + ('*',), cur[2])
        return ('loc', (('O', v),), ())

    def index(self, cur, i):
        if cur[0] == 'sl':
            s = cur[1]
            return ('loc', s.a[0] + ('[]',), s.a[1] + (binop('add', s.a[2], i),))
        return ('loc', cur[1] + ('[]',), cur[2] + (i,))

    def length(self, st, cur):
        if cur[0] == 'sl': return cur[1].a[3]
        return self.rd(st, cur[1] + ('#len',), cur[2])

    def subslice(self, cur, lo, n):
        if cur[0] == 'sl':
            s = cur[1]
            return mk('sref', s.a[0], s.a[1], binop('add', s.a[2], lo), n)
        return mk('sref', cur[1], cur[2], lo, n)

    def rdp(self, st, p):
        c = self.place(st, p)
        if c[0] == 'sl': return mk('slval', c[1], self.slice_val(st, c[1]))
        return self.rd(st, c[1], c[2])

    def slice_val(self, st, s):
        return mk('slice', self.rd(st, s.a[0], s.a[1]), s.a[2], s.a[3])

    def op(self, st, o):
        if o[0] == 'p': return self.rdp(st, o[1])
        return conv_const(o[1])

    def assign(self, st, p, val, org):
        c = self.place(st, p)
        if c[0] == 'sl':
            s = c[1]
            self.wr(st, s.a[0], s.a[1], mk('after', self.site(), 0, 'slice-assign', val)); return
        self.write_loc(st, c[1], c[2], val, org)

    def write_loc(self, st, key, idxs, val, org):
        if key[-1] == '[v]':
            # variable component of a small vector
            base = key[:-1]; i = idxs[-1]; idxs = idxs[:-1]
            old = self.rd(st, base, idxs)
            for j, n in enumerate(('x', 'y', 'z')):
                self.wr(st, base + (n,), idxs, mk('vupd', old, i, val, n))
            if self.rec: self.event('store', (base, idxs, mk('vupd', old, i, val, '*'), old), org)
            return
        if self.rec and (key[0] not in self.plain) and not fresh_box(key[0]):
            self.event('store', (key, idxs, val, self.rd(st, key, idxs)), org)
        self.wr(st, key, idxs, val)

    def event(self, kind, a, org):
        self.events.append(Event(kind, self.blk, self.si, a, org))

    def site(self): return (self.uid, self.blk, self.si)

    # ----- statements
    def rvalue(self, st, rv, org, lhs=None):
        t = rv[0]
        if t == 'use': return self.op(st, rv[1])
        if t == 'ref':
            c = self.place(st, rv[2])
            if c[0] == 'sl': return c[1]
            return mk('ref', c[1], c[2])
        if t == 'agg':
            kind, path, var, names, ops = rv[1], rv[2], rv[3], rv[4], rv[5]
            vals = [self.op(st, o) for o in ops]
            if kind in ('array', 'Array'): return mk('arr', *vals)
            if kind == 'closure': return mk('agg', 'closure', path, None, tuple(names), tuple(vals))
            if kind == 'tuple': return mk('agg', 'tuple', None, None, tuple(names), tuple(vals))
            return agg(kind, path, var, names, vals)
        if t == 'discr':
            c = self.place(st, rv[1])
            v = self.rd(st, c[1], c[2]) if c[0] == 'loc' else UNDEF
            return discr(v, rv[2])
        if t == 'bin':
            a = self.op(st, rv[2]); b = self.op(st, rv[3])
            ty = self.op_ty(rv[2]) or self.op_ty(rv[3])
            r = self.binary(rv[1], a, b, ty in FLOATS, ty in UNS)
            if self.rec and ty in INT_BITS and rv[1].replace('WithOverflow', '').replace('Unchecked', '') in ('Add', 'Sub', 'Mul'):
                v = r.a[4][0] if r.op == 'agg' else r
                if not is_const(v): self.event('arith', (ty, v), getattr(self, 'org', None))
            return r
        if t == 'un':
            a = self.op(st, rv[2])
            if rv[1] == 'Not':
                if isb(a) or a.op in ('lt', 'eq', 'not', 'and', 'or', 'phi', 'call', 'fld') and self.is_bool_ctx(rv[2]): return neg(a)
                return neg(a) if self.is_bool_ctx(rv[2]) else mk('bnot', a)
            if rv[1] == 'Neg':
                if num(a) is not None: return const(-num(a))
                if is_const(a) and isinstance(a.a[0], tuple) and a.a[0][0] == 'f': return const(('f', -a.a[0][1]))
                return mk('neg', a)
            if rv[1] == 'PtrMetadata':
                if a.op == 'sref': return a.a[3]
                return fld(mk('deref', a), '#len') if a.op != 'ref' else self.rd(st, a.a[0] + ('#len',), a.a[1])
            return mk('un', rv[1], a)
        if t == 'cast':
            a = self.op(st, rv[2])
            kind, to, fr = rv[1], rv[3], rv[4]
            if 'Unsize' in kind:
                if a.op == 'ref':
                    tt = parse_ty(fr)
                    if tt[0] in ('&', '&mut', '*') and tt[1][0] == '[;]':
                        return mk('sref', a.a[0], a.a[1], ZERO, self.rd(st, a.a[0] + ('#len',), a.a[1]) if tt[1][2][0].strip() == '_' else self.arrlen(tt[1][2][0], st, a))
                return a
            if kind.startswith(('IntToInt', 'IntToFloat', 'FloatToInt', 'FloatToFloat')):
                if self.rec and kind.startswith('IntToInt') and not is_const(a) and not lossless(fr, to): self.event('cast', (to, fr, a), getattr(self, 'org', None))
                return cast(to, a, fr)
            if a.op == 'discr': return a
            return mk('cast', to, a, fr) if kind not in ('PtrToPtr', 'Transmute', 'Subtype') and 'Reify' not in kind and 'ClosureFn' not in kind and 'Box' not in kind and 'MutToConst' not in kind else a
        if t == 'repeat':
            x = self.op(st, rv[1])
            n = rv[2]
            try: n = const(int(n))
            except Exception: n = mk('constdef', str(n))
            return mk('vecfill', x, n)
        return mk('opaque', str(rv)[:80], self.site())

    def is_bool_ctx(self, o):
        if o[0] == 'p':
            p = o[1]
            if len(p) == 1: return self.f.locals[p[0]][0] == ('bool',)
            return self.f.locals[p[0]][0] == ('bool',) or True if len(p) > 1 and False else False
        return o[1].get('ty') == 'bool'

    def arrlen(self, s, st, a):
        try: return const(int(s.split('_')[0]))
        except Exception: return self.rd(st, a.a[0] + ('#len',), a.a[1])

    def op_ty(self, o):
        if o[0] == 'p':
            p = o[1]
            if len(p) == 1: t = self.f.locals[p[0]][0]
            elif len(p) == 2 and p[1] == '*':
                t = self.f.locals[p[0]][0]
                t = t[1] if t[0] in ('&', '&mut') else t
            else: return None
            return t[0] if len(t) == 1 else None
        return o[1].get('ty')

    def binary(self, o, a, b, fl=False, uns=False):
        if o in BIN: return binop('fdiv' if fl and o == 'Div' else BIN[o], a, b)
        if o == 'Lt': return lt(a, b, fl, uns)
        if o == 'Gt': return lt(b, a, fl, uns)
        if o == 'Le': return neg(lt(b, a, fl, uns))
        if o == 'Ge': return neg(lt(a, b, fl, uns))
        if o == 'Eq': return eq(a, b)
        if o == 'Ne': return neg(eq(a, b))
        if o.endswith('WithOverflow'):
            r = binop(BIN.get(o[:-len('WithOverflow')], o), a, b)
            return mk('agg', 'tuple', None, None, ('0', '1'), (r, FALSE))
        return mk('bin', o, a, b)

    def stmt(self, st, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, s[2], s[3])
            self.assign(st, s[1], v, s[3])
        elif k == 'kill':
            lo, hi = s[1], s[2]
            for r in [r for r in st.m if isinstance(r, int) and lo <= r < hi]: del st.m[r]
        elif k == 'call':
            self.call(st, s[1], s[2], s[3], s[4])
        elif k == 'assert':
            if self.rec: self.event('assert', (self.op(st, s[1]), s[2], s[3]), s[4])
        elif k == 'sd':
            pass

    # ----- calls
    def deep(self, st, v, d=3):
        """value of an argument with references replaced by what they point to"""
        if d == 0: return v
        if v.op == 'ref': return self.deep(st, self.rd(st, v.a[0], v.a[1]), d - 1)
        if v.op == 'sref': return self.slice_val(st, v)
        if v.op == 'agg' and any(x.op in ('ref', 'sref', 'agg') for x in v.a[4]):
            return mk('agg', v.a[0], v.a[1], v.a[2], v.a[3], tuple(self.deep(st, x, d - 1) for x in v.a[4]))
        return v

    def call(self, st, ci, args, dest, org):
        import builtins_vg as B
        vals = [self.op(st, a) for a in args]
        r = B.builtin(self, st, ci, vals, org)
        if r is None:
            r = self.opaque_call(st, ci, vals, org)
        if r.op == 'never': return
        self.assign(st, dest, r, org)

    def callname(self, ci):
        return ci.get('_name') or ci.get('fn') or ci.get('_decl') or 'ptr'

    def opaque_call(self, st, ci, vals, org):
        name = self.callname(ci)
        if name.startswith('bevy_ecs::world::World::') and ci.get('gargs'): name += '::<%s>' % ', '.join(ci['gargs'])
        aty = ci.get('_aty') or []
        dv = tuple(self.deep(st, v) for v in vals)
        mut = []
        for i, v in enumerate(vals):
            t = aty[i] if i < len(aty) else ('?',)
            if t[0] == '&mut':
                mut.append((i, v))
                if v.op == 'ref':
                    w = self.rd(st, v.a[0], v.a[1])
                    if w.op == 'agg' and w.a[0] == 'closure':
                        for x in mut_refs(w, self.p): mut.append((i, x))
            elif v.op == 'agg' and (has_mut(t) or v.a[0] == 'closure' or any(x.op == 'agg' and x.a[0] == 'closure' for x in v.a[4])):
                for x in mut_refs(v, self.p): mut.append((i, x))
            elif t[0] not in PRIMS and has_mut(t): mut.append((i, v))
        impure = bool(mut) or any(name.startswith(x) or x == name for x in self.impure) or is_impure(ci)
        site = self.site()
        if impure: r = mk('call', name, dv, site)
        else: r = mk('call', name, dv, None)
        if self.rec: self.event('call', (name, ci, vals, dv, r), org)
        for i, v in mut:
            if v.op == 'ref':
                old = self.rd(st, v.a[0], v.a[1])
                self.write_loc_q(st, v.a[0], v.a[1], mk('after', site, i, name, old))
            elif v.op == 'sref':
                old = self.rd(st, v.a[0], v.a[1])
                self.write_loc_q(st, v.a[0] + ('[]',), v.a[1] + (mk('any', site),), mk('after', site, i, name, old))
            else:
                old = self.rd(st, (('O', v),), ())
                self.write_loc_q(st, (('O', v),), (), mk('after', site, i, name, old))
        return r

    def write_loc_q(self, st, key, idxs, val):
        # havoc: for containers under key everything below is replaced
        if '[]' in key:
            # replace element (field versions included)
            self.wr(st, key, idxs, val)
        else: self.wr(st, key, idxs, val)

    # ----- fixpoint
    def analyse(self):
        f = self.f
        n = len(f.blocks)
        self.preds = [[] for _ in range(n)]
        self.succ = [FL.succs(b.term) for b in f.blocks]
        for i in range(n):
            for s in self.succ[i]:
                if i not in self.preds[s]: self.preds[s].append(i)
        self.live, self.ataken = liveness(f, self.succ, self.preds)
        # locals whose stores are not interesting events: not address-taken temporaries
        self.plain = PlainSet()
        IN = [None] * n; OUT = [None] * n
        self.IN = IN; self.OUT = OUT
        self.passno = 0
        self.stick = {}          # block -> set of full keys that are phis there
        self.reset_at = None
        # natural loops (blocks are in reverse postorder)
        self.loops = {}
        for p in range(n):
            for h in self.succ[p]:
                if h <= p:
                    body = self.loops.setdefault(h, {h})
                    work = [p]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x)
                        if x < h and ('irreducible %d' % h) not in self.warn: self.warn.append('irreducible %d' % h)
                        work += self.preds[x]
        self.converged = True
        self.steps = 0
        self.run_region(range(n), None)
        # final recording pass: recompute the merges once so that the phi table is consistent
        self.phis = {}
        self.reset_at = None
        for b in range(n):
            if IN[b] is None or b == f.entry: continue
            ps = [p for p in self.preds[b] if OUT[p] is not None]
            new = self.merge(b, ps, OUT); self.prune(b, new)
            if not same_state(new, IN[b]): self.converged = False
        if not self.converged: self.warn.append('no fixpoint')
        self.rec = True; self.events = []; self.at_ret = {}
        self.cond = {}     # block -> switch node
        for b in range(n):
            if IN[b] is None: continue
            st = IN[b].copy(); self.blk = b
            for i, s in enumerate(f.blocks[b].stmts):
                self.si = i; self.stmt(st, s)
            t = f.blocks[b].term
            if t[0] == 'switch':
                self.si = len(f.blocks[b].stmts)
                self.cond[b] = self.op(st, t[1])
                self.event('switch', (self.cond[b], t), t[4])
            elif t[0] == 'ret':
                self.si = len(f.blocks[b].stmts)
                self.event('ret', (self.rd(st, (0,), ()),), None)
                self.at_ret[b] = st
            elif t[0] == 'unreach':
                self.event('stop', (t[1],), f.blocks[b].org)
            OUT[b] = st

    def eval_block(self, b):
        st = self.IN[b].copy()
        self.blk = b; self.steps += 1
        for i, s in enumerate(self.f.blocks[b].stmts):
            self.si = i
            self.stmt(st, s)
        self.OUT[b] = st

    def run_region(self, blocks, head):
        """evaluate blocks (reverse postorder); nested loops are brought to their own fixpoint first"""
        skip = set()
        for b in blocks:
            if b in skip: continue
            if b in self.loops and b != head:
                self.run_loop(b)
                skip |= self.loops[b]
                continue
            if b != head:
                if b == self.f.entry: new = State()
                else:
                    ps = [p for p in self.preds[b] if self.OUT[p] is not None]
                    if not ps: continue
                    new = self.merge(b, ps, self.OUT); self.prune(b, new)
                self.IN[b] = new
            self.eval_block(b)

    def run_loop(self, h):
        body = sorted(self.loops[h]); bs = self.loops[h]
        entry = [p for p in self.preds[h] if p not in bs and self.OUT[p] is not None]
        if not entry and h != self.f.entry: return
        first = True
        stick0 = self.stick.get(h)
        for it in range(40):
            self.passno = max(self.passno, it + 1)
            if first:
                for x in bs:
                    if x != h and not stick0: self.OUT[x] = None
                self.reset_at = (h, set(entry))
                ps = [p for p in self.preds[h] if p in entry or (stick0 and self.OUT[p] is not None)]
                new = self.merge(h, ps, self.OUT) if ps else State()
                self.reset_at = None
                for x in bs: self.OUT[x] = None
            else:
                ps = [p for p in self.preds[h] if self.OUT[p] is not None]
                new = self.merge(h, ps, self.OUT)
            self.prune(h, new)
            if not first and same_state(new, self.IN[h]): return
            first = False
            self.IN[h] = new
            self.run_region(body, h)
        self.converged = False; self.warn.append('loop %d does not converge' % h)

    def prune(self, b, st):
        lv = self.live[b]
        for r in [r for r in st.m if isinstance(r, int) and r not in lv and r not in self.ataken]:
            del st.m[r]

    def merge(self, b, ps, OUT):
        reset = self.reset_at is not None and self.reset_at[0] == b
        if reset:
            allps = ps; ps = [p for p in ps if p in self.reset_at[1]]
            allst = [OUT[p] for p in allps]
        stick = self.stick.get(b) if reset or b in self.loops else None
        sroots = {k[0] for k in stick} if stick else ()
        states = [OUT[p] for p in ps]
        if len(ps) == 1 and not stick: return states[0].copy()
        new = State()
        roots = set()
        for s in (allst if reset else states): roots |= set(s.m)
        lv = self.live[b]
        for r in roots:
            if isinstance(r, int) and r not in lv and r not in self.ataken: continue
            ms = [s.m.get(r) for s in states]
            m0 = ms[0]
            if r not in sroots and all(m is m0 or m == m0 for m in ms):
                if m0 is not None: new.m[r] = m0
                continue
            keys = set()
            for m in ms:
                if m: keys |= set(m)
            if r in sroots:
                if reset:
                    for s in allst:
                        if s.m.get(r): keys |= set(s.m[r])
                for k in stick:
                    # only the keys that were whole phis; parts of aggregates are reached through their parent
                    if k[0] == r and not any(k[1:1 + j] in keys for j in range(len(k))): keys.add(k[1:])
            out = {}
            for k in keys:
                vals = []
                for s, m in zip(states, ms):
                    if m and k in m: vals.append(m[k])
                    elif isinstance(r, int) and not m and not (1 <= r <= self.f.argc): vals.append(UNDEF)
                    else: vals.append(self.version(s, r, k))
                out[k] = self.phi(b, (r,) + k, vals, ps)
            new.m[r] = out
        return new

    def phi(self, b, key, vals, ps):
        me = mk('phi', b, key, self.uid)
        if key in self.stick.get(b, ()):
            self.phis[(b, key)] = dict(zip(ps, vals))
            return me
        v0 = None; same = True
        for v in vals:
            if v is me or v.op == 'undef': continue
            if v0 is None: v0 = v
            elif v is not v0: same = False
        if v0 is None: return vals[0] if vals[0].op == 'undef' else me
        if same: return v0
        nv = [v for v in vals if v.op != 'undef' and v is not me]
        if all(v.op == 'agg' for v in nv):
            a = nv[0].a
            if all(v.a[0] == a[0] and v.a[1] == a[1] and v.a[2] == a[2] and v.a[3] == a[3] for v in nv):
                pre = (a[2] + '.') if a[2] else ''
                full = [fld(me, pre + n) if False else None for n in a[3]]
                return agg(a[0], a[1], a[2], a[3], [self.phi(b, key + (pre + n,), [fld(v, pre + n) if v is not me and v.op != 'undef' else (UNDEF if v.op == 'undef' else mk('phi', b, key + (pre + n,), self.uid)) for v in vals], ps) for n in a[3]])
        if all(v.op == 'ref' for v in nv) and len(set(v.a[0] for v in nv)) == 1 and not any(v is me for v in vals):
            k0 = nv[0].a[0]
            n = len(nv[0].a[1])
            return mk('ref', k0, tuple(self.phi(b, key + ('#i%d' % j,), [v.a[1][j] if v.op != 'undef' else UNDEF for v in vals], ps) for j in range(n)))
        if all(v.op == 'sref' for v in nv) and len(set(v.a[0] for v in nv)) == 1 and not any(v is me for v in vals):
            k0 = nv[0].a[0]; n = len(nv[0].a[1])
            ii = tuple(self.phi(b, key + ('#i%d' % j,), [v.a[1][j] if v.op != 'undef' else UNDEF for v in vals], ps) for j in range(n))
            return mk('sref', k0, ii, self.phi(b, key + ('#off',), [v.a[2] if v.op != 'undef' else UNDEF for v in vals], ps),
                      self.phi(b, key + ('#n',), [v.a[3] if v.op != 'undef' else UNDEF for v in vals], ps))
        self.phis[(b, key)] = dict(zip(ps, vals))
        if b in self.loops: self.stick.setdefault(b, set()).add(key)
        return me

    # ----- queries
    def phi_args(self, n):
        """{pred: value} of a phi node (fields of phis are derived lazily)"""
        b, key = n.a[0], n.a[1]
        if (b, key) in self.phis: return self.phis[(b, key)]
        if len(key) <= 1: return {}
        parent = self.phi_args(mk('phi', b, key[:-1], n.a[2]))
        r = {p: fld(v, key[-1]) for p, v in parent.items()}
        return r

class PlainSet:
    """stores to temporaries never matter as events; user-visible state is behind references or in named locals"""
    def __contains__(self, root): return isinstance(root, int) and False

def fresh_box(root): return isinstance(root, tuple) and root[0] == 'O' and root[1].op == 'call' and root[1].a[0] == 'new_uninit'
def has_mut(t):
    if not isinstance(t, tuple): return False
    if t[0] == '&mut': return True
    return any(has_mut(x) for x in t[1:])

_clmut = {}
def closure_mutates(p, path):
    """the captures (by position) a closure may change through; None: unknown"""
    if path in _clmut: return _clmut[path]
    b = p.bodies.get(path)
    r = None
    if b is not None:
        r = set(); taint = {}
        def of(pl):
            if pl[0] == 1:
                f = [e[1] for e in pl[1:] if isinstance(e, (list, tuple)) and e and e[0] == 'f']
                return {f[0]} if f else {-1}
            return taint.get(pl[0], set())
        def places(x):
            if isinstance(x, dict):
                for k in ('c', 'm'):
                    if k in x: yield x[k]
                for k, y in x.items():
                    if k not in ('c', 'm', 'k'): yield from places(y)
            elif isinstance(x, (list, tuple)):
                for y in x: yield from places(y)
        ref = lambda l: b['locals'][l][0].startswith(('&', '*'))
        again = True
        while again:
            again = False
            for bl in b['blocks']:
                for s in (bl or {}).get('s', ()):
                    if s[0] != '=': continue
                    d, rv = s[1], s[2]
                    if '*' in d[1:]: r |= of(d)
                    src = set()
                    if rv[0] in ('ref', 'raw', 'addr') and isinstance(rv[2], (list, tuple)):
                        src = of(rv[2])
                        if '*' in rv[2][1:] and rv[1] != 'shared': r |= src
                    for pl in places(list(rv)[1:]): src = src | of(pl)
                    if '&mut' in b['locals'][d[0]][0] and rv[0] == 'use': r |= src
                    if src and (len(d) > 1 or ref(d[0]) or rv[0] in ('agg', 'cast', 'ref')) and not src <= taint.get(d[0], set()) and d[0] != 1:
                        taint[d[0]] = taint.get(d[0], set()) | src; again = True
    _clmut[path] = r
    return r

def mut_refs(v, p, d=4):
    out = []
    if v.op == 'agg':
        w = closure_mutates(p, v.a[1]) if v.a[0] == 'closure' else None
        for i, x in enumerate(v.a[4]):
            if w is not None and i not in w and -1 not in w: continue
            if x.op in ('ref', 'sref'): out.append(x)
            elif x.op == 'agg' and d: out += mut_refs(x, p, d - 1)
    return out

def is_impure(ci):
    d = ci.get('_decl') or ''
    return any(h in d for h in ('::alloc::', 'Instant::now', 'SystemTime::now', 'reserve_handle', 'rand::'))

def same_state(a, b):
    if a.m.keys() != b.m.keys(): return False
    for k, v in a.m.items():
        w = b.m[k]
        if v is not w and v != w: return False
    return True

def op_locals(o):
    if o[0] == 'p': return place_uses(o[1])
    return ()
def place_uses(p):
    r = [p[0]]
    for e in p[1:]:
        if isinstance(e, tuple) and e[0] == 'i': r.append(e[1])
    return r
def rv_uses(rv):
    t = rv[0]
    if t in ('use', 'repeat'): return op_locals(rv[1])
    if t == 'ref' or t == 'discr': return place_uses(rv[2] if t == 'ref' else rv[1])
    if t == 'cast': return op_locals(rv[2])
    if t == 'bin': return list(op_locals(rv[2])) + list(op_locals(rv[3]))
    if t == 'un': return op_locals(rv[2])
    if t == 'agg':
        r = []
        for o in rv[5]: r += op_locals(o)
        return r
    return ()

def liveness(f, succ, preds):
    n = len(f.blocks)
    taken = set()
    use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
    for i, b in enumerate(f.blocks):
        U, D = use[i], df[i]
        for s in b.stmts:
            if s[0] == '=':
                rv = s[2]
                if rv[0] == 'ref' and '*' not in rv[2]: taken.add(rv[2][0])
                for l in rv_uses(rv):
                    if l not in D: U.add(l)
                p = s[1]
                if len(p) == 1: D.add(p[0])
                else:
                    for l in place_uses(p):
                        if l not in D: U.add(l)
            elif s[0] == 'call':
                for a in s[2]:
                    for l in op_locals(a):
                        if l not in D: U.add(l)
                p = s[3]
                if len(p) == 1: D.add(p[0])
                else:
                    for l in place_uses(p):
                        if l not in D: U.add(l)
            elif s[0] == 'assert':
                for l in op_locals(s[1]):
                    if l not in D: U.add(l)
        t = b.term
        if t[0] == 'switch':
            for l in op_locals(t[1]):
                if l not in D: U.add(l)
        elif t[0] == 'ret':
            if 0 not in D: U.add(0)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succ[i]: o |= live[s]
            new = use[i] | (o - df[i])
            if new != live[i]: live[i] = new; ch = True
    return live, taken

# ---------------------------------------------------------------- display
def show(n, d=6):
    if d <= 0: return '..'
    op, a = n.op, n.a
    s = lambda x: show(x, d - 1) if isinstance(x, N) else str(x)
    if op == 'const':
        v = a[0]
        if isinstance(v, tuple): return repr(v[1])
        return str(v)
    if op == 'param': return 'arg%d' % a[1]
    if op == 'deref': return '*' + s(a[0])
    if op == 'fld': return s(a[0]) + '.' + str(a[1])
    if op == 'elem': return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'sel': return s(a[0]) + '[' + ','.join(s(x) for x in a[1]) + ']'
    if op == 'ref': return '&' + showkey(a[0], a[1], d)
    if op == 'sref': return '&' + showkey(a[0], a[1], d) + '{' + s(a[2]) + '+' + s(a[3]) + '}'
    if op == 'phi': return 'phi%d:%s' % (a[0], '.'.join(str(x) if not isinstance(x, tuple) else ('O' + (s(x[1]) if isinstance(x[1], N) else str(x[1]))) for x in a[1]))
    if op == 'agg':
        nm = (a[1] or '').split('::')[-1] + ('::' + a[2] if a[2] else '')
        return nm + '(' + ', '.join(('%s=' % k if not k.isdigit() else '') + s(x) for k, x in zip(a[3], a[4])) + ')'
    if op == 'call': return a[0].split('::')[-1] + '(' + ', '.join(s(x) for x in a[1]) + ')' + ('@%s' % (a[2][1:],) if a[2] else '')
    if op == 'store': return s(a[0]) + '{' + ','.join(s(x) for x in a[1]) + ':=' + s(a[2]) + '}'
    if op == 'lift': return s(a[0]) + ''.join('.' + x for x in a[1])
    if op == 'after': return 'after%s(%s#%d)' % (a[0][1:], a[2].split('::')[-1], a[1])
    if op == 'upd': return s(a[0]) + ' with {' + ', '.join('.'.join(r) + '=' + s(x) for r, x in a[1]) + '}'
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'eq': '==', 'and': '&', 'or': '|', 'shl': '<<', 'shr': '>>', 'rem': '%'}
    if op in sym: return '(' + s(a[0]) + ' ' + sym[op] + ' ' + s(a[1]) + ')'
    if op == 'not': return '!' + s(a[0])
    if op == 'poly':
        out = []
        for m, c in a[0]:
            t = '*'.join(show(x, d - 1) + ('^%d' % e if e != 1 else '') for x, e in m)
            out.append((('%s*' % c if c != 1 else '') + t) if m else str(c))
        return '[' + '+'.join(out).replace('+-', '-') + ']'
    if op in ('le0', 'eq0', 'flt0', 'fle0'): return s(a[0]) + {'le0': '<=0', 'eq0': '==0', 'flt0': '<0.', 'fle0': '<=0.'}[op]
    return op + '(' + ', '.join(s(x) if not isinstance(x, tuple) else str(x) for x in a) + ')'

def showkey(key, idxs, d=6):
    out = []; k = 0
    for e in key:
        if e == '[]':
            out.append('[' + show(idxs[k], d - 1) + ']'); k += 1
        elif isinstance(e, tuple):
            out.append('(*' + (show(e[1], d - 1) if isinstance(e[1], N) else str(e[1])) + ')')
        elif isinstance(e, int): out.append('_%d' % e)
        else: out.append('.' + str(e))
    return ''.join(out)
