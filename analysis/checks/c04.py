from lib import *
from bits import Bits, BB, W, declare
EXPLAIN = ('Bit-level evaluation: every accessor of the packed words is turned into its value graph and each result bit into a decision diagram over the input bits; '
           'read-after-write of every pair of slots is then decided exactly, for all 2^32 words and all values at once.')
SPAN = 'CompactSpan'
def self_fields(q, n):
    """nodes reading a field of the pointee of self"""
    self_ = mk('param', q.g.uid, 1)
    return {x for x in walk_nodes(n) if x.op in ('fld', 'elem') and root_self(x, self_)}
def root_self(x, s):
    while x.op in ('fld', 'deref', 'elem'): x = x.a[0]
    return x is s or (x.op == 'mem' or x.op == 'init') and s in [y for y in walk_nodes(x)]
def opaque_into(q, n):
    """Into<Option<u8>> for the caller's type: the value is what the caller passed"""
    return [x for x in walk_nodes(n) if x.op in ('call', 'app', 'into') or 'into' in shown(x, 1)[:6]]
class Write:
    def __init__(s, P, path, d=None, v=None):
        q = analyse(P, path); s.q = q; s.new = {}; s.bad = None
        for e in q.effects():
            if e.call is not None: s.bad = 'calls %s on the span' % e.call; return
            for p0, val, old in [(p + x, v2, o2) for x, v2, o2 in leaf_changes(e.val, e.old) for p in e.paths()]:
                s.new.setdefault(p0, []).append((q.facts(e.blk), val, old))
def reads(P, R):
    names = {}
    for n in ('con', 'set_con', 'height', 'set_height'):
        p = find1(P, R, n, SPAN, 'rerecast')
        if not p: return None
        names[n] = p
    return names
def run(P, R):
    nm = reads(P, R)
    if nm: span_words(P, R, nm)
    flags(P, R)
    vertex_words(P, R)
def span_words(P, R, nm):
    RULE = 'reading a slot back after a write'
    writers = [('set_con(%d, connected)' % d, nm['set_con'], d, 'some') for d in range(4)] + \
              [('set_con(%d, absent)' % d, nm['set_con'], d, 'none') for d in range(4)] + [('set_height', nm['set_height'], None, None)]
    readers = [('con(%d)' % d, nm['con'], d) for d in range(4)] + [('height', nm['height'], None)]
    val = mk('any', 'v'); declare(val, 'u8')
    word = mk('any', 'word'); declare(word, 'u32')
    for wn, wp, wd, kind in writers:
        q = analyse(P, wp)
        effs = q.effects(); ups = []
        if any(e.call for e in effs): R.fail(RULE, wn, '%s hands the span to another function' % wn); continue
        datas = set()
        for e in effs:
            for p0, v, o in [(p + x, v2, o2) for x, v2, o2 in leaf_changes(e.val, e.old) for p in e.paths()]:
                ups.append((p0, q.facts(e.blk), v, o))
        if {p0 for p0, *_ in ups} != {('data',)}:
            R.fail(RULE, wn, '%s writes %s, expected only the packed word' % (wn, sorted({p0 for p0, *_ in ups}))); continue
        # last write wins: the function is straight-line with respect to the word
        if len(ups) != 1 and not all(gd is True for _, gd, _, _ in ups): R.fail(RULE, wn, '%s writes the word in several conditional places' % wn); continue
        p0, gd, v, o = ups[-1]
        if gd is not True and not taut(gd): R.fail(RULE, wn, '%s does not always write the word (%s)' % (wn, showf(gd)[:100])); continue
        m = {}
        for x in walk_nodes(v):
            if is_data(x): m[x] = word
        if wd is not None: m[mk('param', q.g.uid, 2)] = const(wd)
        given = mk('agg', 'adt', 'core::option::Option', 'Some', ('0',), (val,)) if kind == 'some' else mk('agg', 'adt', 'core::option::Option', 'None', (), ())
        for x in walk_nodes(v):
            pass
        bits_w = Bits(q)
        flat_v = flatten(q, v)        # (guard, value) without phis
        res = []
        for g0, x in flat_v:
            for y in list(walk_nodes(x)):
                if wd is not None and is_given(q, y): m[y] = given
            if wd is None: m[mk('param', q.g.uid, 2)] = val
            for a in fatoms(g0):
                for y in walk_nodes(a):
                    if wd is not None and is_given(q, y): m[y] = given
            gx = q.fsubst(g0, m)
            if gx is False or unsat(gx): continue
            res.append((gx, subst(x, m)))
        if len(res) != 1: R.fail(RULE, wn, '%s: the written word is not determined by the value (%d cases)' % (wn, len(res))); continue
        nw = res[0][1]
        b0 = Bits(None); nb = b0.bits(nw)
        if any(nb[k] is not False for k in range(32, W)): nb = nb[:32] + [False] * (W - 32)
        pre = True
        if kind == 'some':        # storable: fits the slot and is not the absent mark
            vb = b0.bits(val)
            pre = BB.AND(*[BB.NOT(x) for x in vb[6:8]])
            allset = True
            for x in vb[:6]: allset = BB.AND(allset, x)
            pre = BB.AND(pre, BB.NOT(allset))
        for rn, rp, rd in readers:
            old_some, old_bits = read(P, rp, rd, word, None)
            new_some, new_bits = read(P, rp, rd, word, nb)
            if rd == wd and rd is not None or (rd is None and wd is None):
                if kind == 'none': ok = new_some is False; want = 'nothing'
                else:
                    vb = b0.bits(val)
                    ok = imp(pre, new_some if new_some is not None else True) and imp(pre, b0.eqb(new_bits, vb)); want = 'the value just written'
                R.check(ok, RULE, '%s then %s' % (wn, rn), 'after %s, %s does not return %s' % (wn, rn, want))
            else:
                same_some = True if old_some is None else iff(old_some, new_some)
                ok = imp(pre, same_some) and imp(BB.AND(pre, old_some if old_some is not None else True), b0.eqb(new_bits, old_bits))
                R.check(ok, 'a write leaves the other slots alone', '%s then %s' % (wn, rn), '%s changes what %s returns' % (wn, rn))
    R.floor(RULE, 9); R.floor('a write leaves the other slots alone', 30)
def iff(a, b): return BB.NOT(BB.ite(a, BB.NOT(b), b))
def imp(a, b): return BB.OR(BB.NOT(a), b) is True
def is_data(x): return x.op == 'fld' and x.a[1] == 'data' or x.op not in ('fld',) and shown(x, 3).startswith('*arg1.data')
def is_given(q, y): return y.op not in ('param',) and y is not None and opt_call(y)
def opt_call(y): return y.op == 'res' or (y.op in ('call', 'ucall', 'opaque', 'pure') and 'into' in str(y.a[0]))
def flatten(q, v):
    """cases of a value with the phis inside it resolved"""
    out = [(True, v)]
    for _ in range(8):
        nxt = []; ch = False
        for gd, x in out:
            ph = next((y for y in walk_nodes(x) if y.op == 'phi' and q.cases(y)), None)
            if ph is None: nxt.append((gd, x)); continue
            ch = True
            for c, z in q.cases(ph): nxt.append((B.AND(gd, c), subst(x, {ph: z})))
        out = nxt
        if not ch: break
    return out
_rc = {}
def read(P, path, d, word, nb):
    """-> (is_some diagram or None, result bits) of a reader applied to the word (or to the given bits of it)"""
    q = analyse(P, path)
    ret = [e for e in q.events('ret')]
    some = False; acc = [False] * W; opt = False
    bt = Bits(None)
    if nb is not None: bt.memo[nf(word)] = nb; bt.memo[word] = nb
    for e in ret:
        for gd, x in flatten(q, e.a[0]):
            m = {}
            for y in list(walk_nodes(x)) + [z for a in fatoms(gd) for z in walk_nodes(a)]:
                if is_data(y): m[y] = word
            if d is not None: m[mk('param', q.g.uid, 2)] = const(d)
            F = q.fsubst(B.AND(gd, q.facts(e.blk)), m); g = bt.form(F); y = subst(x, m)
            if y.op == 'agg' and y.a[2] in ('Some', 'None'):
                opt = True
                if y.a[2] == 'None': continue
                some = BB.OR(some, g); y = y.a[4][0]
            b = bt.bits(y)
            acc = [BB.OR(p, BB.AND(g, k)) for p, k in zip(acc, b)]
    return (some if opt else None), acc
def cval(P, name):
    for k, v in P.consts.items():
        if strip_gen(k).endswith(name): return deepint(v[1])
def deepint(v):
    while isinstance(v, dict) and v.get('fields'): v = v['fields'][0]
    return v if isinstance(v, int) else None
def flags(P, R):
    RULE = 'flag bits overlap neither the region id nor each other'
    mask = cval(P, 'RegionVertexId::REGION_MASK'); b = cval(P, 'RegionVertexId::BORDER_VERTEX'); a = cval(P, 'RegionVertexId::AREA_BORDER')
    if None in (mask, b, a): R.fail(RULE, 'RegionVertexId', 'the flag constants of contour vertices are gone'); return
    R.check(mask & 0xffff == 0xffff, RULE, 'mask covers every region id', 'REGION_MASK %#x does not cover every region id' % mask)
    for n, v in (('BORDER_VERTEX', b), ('AREA_BORDER', a)):
        R.check(v & 0xffff == 0 and v & mask == 0 and v != 0, RULE, n, '%s %#x overlaps the region id bits' % (n, v))
    R.check(a & b == 0, RULE, 'flags differ', 'BORDER_VERTEX and AREA_BORDER share a bit')
    br = cval(P, 'RegionId::BORDER_REGION')
    R.check(br is not None and br != 0 and br & (br - 1) == 0 and br <= 0x8000 and br & 0x7fff == 0, RULE, 'BORDER_REGION', 'the border flag %r is not the top bit of a region id' % br)
    # region id -> vertex id -> region id
    to = [p for p in P.bodies if strip_gen(p).endswith('From::from') or p.endswith('::from')]
    conv = lambda frm, tot: next((b['path'] for b in P.all if b.get('name') == 'from' and b['crate'] == 'rerecast' and strip_gen(b.get('impl_self') or '').endswith(tot) and any(frm == strip_gen(str(t)).split('::')[-1] for t in (b.get('trait_args') or []))), None)
    f1, f2 = conv('RegionId', 'RegionVertexId'), conv('RegionVertexId', 'RegionId')
    RT = 'a region id survives the trip through a contour vertex'
    if not f1 or not f2: R.fail(RT, 'conversions', 'the conversions between region ids and vertex ids are gone'); return
    w = mk('any', 'region'); declare(w, 'u16')
    def ap(path, bitsin, ty):
        q = analyse(P, path); bt = Bits(None)
        e = q.events('ret')
        if len(e) != 1: return None
        x = e[0].a[0]
        for _ in range(4):
            if x.op == 'agg' and len(x.a[4]) == 1: x = x.a[4][0]
        out = [False] * W
        for gd, y in flatten(q, x):
            for z in walk_nodes(y):
                if z.op in ('fld', 'param') and leafp(q, z): bt.memo[z] = bitsin; bt.memo[nf(z)] = bitsin
            out = [BB.OR(o, k) for o, k in zip(out, bt.bits(nf(y)))]
        return out
    wb = Bits(None).bits(w)
    u = ap(f1, wb, 'u16')
    ok = u is not None and Bits(None).eqb(u, wb) is True
    R.check(ok, RT, 'RegionId -> RegionVertexId', 'the region id is not stored unchanged in the vertex id')
    fl = mk('any', 'flags'); declare(fl, 'u32')
    fb = Bits(None).bits(fl)
    mixed = [x if mask >> k & 1 else (fb[k] if k < 32 else False) for k, x in enumerate(wb)]
    r = ap(f2, mixed, 'u32')
    R.check(r is not None and Bits(None).eqb(r, wb) is True, RT, 'RegionVertexId -> RegionId', 'reading the region id of a vertex does not strip exactly the flags')
def leafp(q, z):
    x = z
    while x.op == 'fld': x = x.a[0]
    if x is not mk('param', q.g.uid, 1): return False
    return True
def vertex_words(P, R):
    mask = cval(P, 'RegionVertexId::REGION_MASK'); bord = cval(P, 'RegionVertexId::BORDER_VERTEX'); ab = cval(P, 'RegionVertexId::AREA_BORDER')
    if None in (mask, bord, ab): return
    RULE = 'a packed contour word keeps id and flags in their own bits'
    n = 0
    for b in user_bodies(P, ['rerecast']):
        if b['kind'] not in ('fn', 'assocfn') or not b['file'].endswith('contours.rs'): continue
        q = analyse(P, b['path'])
        seen = set()
        for e in q.events():
            if e.kind != 'store': continue
            for x in walk_nodes(e.a[2]):
                if x.op not in ('or', 'xor') or x in seen: continue
                seen.add(x)
                consts_ = [num(nf(y)) for z in walk_nodes(x) for y in z.a if isinstance(y, N) and z.op in ('and', 'or', 'shl', 'shr')]
                if x.op == 'or' and any(y.op == 'shl' and (num(nf(y.a[1])) or 0) >= 8 for y in x.a):
                    bt = Bits(q); l, r = bt.bits(x.a[0]), bt.bits(x.a[1]); n += 1
                    R.check(all(BB.AND(p, k) is False for p, k in zip(l, r)), RULE, '%s: packed pair' % b['name'], '%s combines %s and %s, whose bits can overlap' % (b['name'], shown(x.a[0]), shown(x.a[1])))
                elif x.op == 'or' and any(y.op == 'and' and num(nf(y.a[0])) is None is not num(nf(y.a[1])) for y in x.a) or x.op == 'or' and all(nf(y).op == 'and' for y in x.a):
                    bt = Bits(q); l, r = bt.bits(x.a[0]), bt.bits(x.a[1]); n += 1
                    R.check(all(BB.AND(p, k) is False for p, k in zip(l, r)), RULE, '%s: combined parts' % b['name'], '%s combines %s, whose bits can overlap' % (b['name'], shown(x)))
                    for k, (p, s) in enumerate(zip(l, r)):
                        for side in (p, s):
                            if side is False: continue
                            if side is True or not all(BB.atoms[v].a[1] == k for v in bvars(side)):
                                R.fail(RULE, '%s: moved bit' % b['name'], 'bit %d of %s comes from another bit of its source' % (k, shown(x))); break
    R.floor(RULE, 2)
def bvars(f):
    s = set(); st = [f]
    while st:
        x = st.pop()
        if isinstance(x, bool): continue
        s.add(x[0]); st += [x[1], x[2]]
    return s
