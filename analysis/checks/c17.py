"""C17: inserting a span never loses or duplicates a column's other spans"""
from lib import *
import seqs
from conv import results
from progress import alternatives
EXPLAIN = ('The walk of add_span over the spans of a column: which spans it passes, which it merges and when it stops; the values of the new span, of the '
           'span before it and of the cursor after each pass, case by case; every write to the column and to the stored spans with the condition under '
           'which it happens; the insertion at the end, on every way to an Ok result.')
def run(P, R):
    p = find1(P, R, 'add_span', 'Heightfield', 'rerecast')
    if not p: return
    q = analyse(P, p)
    hs = [h for h in q.loops if len(q.chain(h)) == 1]
    w = None
    for h in sorted(hs):
        w = w or Walk.of(q, h)
    if not R.check(w is not None, 'walk', 'add_span', 'no walk over the spans of a column, from its first span along the links, was found in add_span'): return
    column(q, w, R); ends(q, w, R); passes_(q, w, R); writes(q, w, R); insertion(q, w, R); result(q, w, R)
    for r in ('walk', 'column', 'end', 'pass', 'merge', 'unlink', 'insert', 'result'): R.floor(r, 1)
class Walk:
    @staticmethod
    def of(q, h):
        w = Walk(); w.h = h; w.self_ = ('O', mk('param', q.g.uid, 1))
        ph = q.header_phis(h)
        w.ph = ph
        for x in ph:
            en, bk = q.entry_args(x)
            if len(en) != 1: continue
            e = nf(en[0])
            if e.op in ('elem', 'sel') and bk and all(follows(nf(v), x) for v in bk): w.cur = x; w.first = e
        if not hasattr(w, 'cur'): return None
        w.key = fld(w.cur, 'Some.0')
        w.prev = None
        for x in ph:
            en, bk = q.entry_args(x)
            if x is w.cur or not bk: continue
            vals = {id(z): z for v in bk for c, z in alternatives(q, h, v)}.values()
            if all(z is x or some(z, w.key) for z in vals) and any(some(z, w.key) for z in vals): w.prev = x; w.prev0 = nf(en[0])
        if w.prev is None: return None
        w.pkey = fld(w.prev, 'Some.0')
        w.span = {}
        for x in ph:
            en, bk = q.entry_args(x)
            f = x.a[1][-1]
            if len(en) == 1 and f in ('min', 'max', 'area') and depends_param(q, nf(en[0]), 2, f): w.span[f] = x
        if set(w.span) != {'min', 'max', 'area'}: return None
        w.next = mk('sel', None, None) if False else None
        return w
    def cells(w, n):
        """reads of the current span in n -> {node: symbol}"""
        m = {}
        for y in walk_nodes(n):
            if y.op == 'fld' and y.a[1] in ('min', 'max', 'area') and y.a[0].op in ('elem', 'sel') and key_is(y.a[0], w.key) and head(y.a[0], w): m[y] = cur(y.a[1])
            if y.op in ('elem', 'sel') and y.a[0].op == 'phi' and y.a[0].a[1][-1] in ('min', 'max', 'area') and y.a[0].a[0] == w.h and key_is(y, w.key): m[y] = cur(y.a[0].a[1][-1])
        return m
    def sym(w, n):
        n = nf(n); m = w.cells(n)
        for f, x in w.span.items(): m[x] = new(f)
        return nf(subst(n, m))
    def symf(w, q, f):
        if f in (True, False): return f
        m = {}
        for at in fatoms(f): m.update(w.cells(at))
        for k, x in w.span.items(): m[x] = new(k)
        return q.fsubst(f, m)
def cur(f): return mk('sym', 'cur.' + f)
def new(f): return mk('sym', 'new.' + f)
def key_is(n, k):
    i = n.a[1]; i = i[-1] if isinstance(i, tuple) else i
    return same(i, k)
def head(n, w):
    b = n.a[0]
    return b.op == 'phi' and b.a[0] == w.h
def follows(v, x):
    v = nf(v)
    if v.op == 'fld' and v.a[1] == 'next': return v.a[0].op in ('elem', 'sel') and key_is(v.a[0], fld(x, 'Some.0'))
    return v.op in ('elem', 'sel') and v.a[0].op == 'phi' and v.a[0].a[1][-1] == 'next' and v.a[0].a[0] == x.a[0] and key_is(v, fld(x, 'Some.0'))
def some(z, k): return z.op == 'agg' and z.a[2] == 'Some' and same(z.a[4][0], k)
def depends_param(q, n, i, f):
    return n.op == 'fld' and n.a[1].split('.')[-1] == f and any(y is mk('param', q.g.uid, i) for y in walk_nodes(n))
def le(q, a, b): return B.NOT(q.formula(mk('lt', b, a)))
def cidx(q):
    me = mk('deref', mk('param', q.g.uid, 1)); ins = mk('param', q.g.uid, 2)
    return nf(from_poly(padd(poly(fld(ins, 'x')), pmul(poly(fld(ins, 'z')), poly(fld(me, 'width'))))))
def column(q, w, R):
    i = w.first.a[1]; i = i[-1] if isinstance(i, tuple) else i
    R.check(same(nf(i), cidx(q)), 'column', 'index', 'the walk starts at column %s instead of x + z * width' % shown(i))
    b = w.first.a[0]
    R.check(b.op == 'phi' or any(y.op == 'fld' and y.a[1].split('.')[0] == 'spans' for y in walk_nodes(w.first)), 'column', 'first', 'the walk does not start at the first span of the column')
    R.check(w.prev0.op == 'agg' and w.prev0.a[2] == 'None', 'column', 'before', 'there is a span before the first one')
    w.col = nf(i)
def has(q, w): return q.formula(V.eq(V.discr(w.cur, OPT), const(FL.discr_of(OPT, 'Some'))))
def hasprev(q, w): return q.formula(V.eq(V.discr(w.prev, OPT), const(FL.discr_of(OPT, 'Some'))))
OPT = 'core::option::Option'
def within(q, w, b, e=True):
    g = q.guard(b, w.h)
    return w.symf(q, B.AND(True if g is None else g, e))
def above(q): return q.formula(mk('lt', new('max'), cur('min')))
def below(q): return q.formula(mk('lt', cur('max'), new('min')))
def ends(q, w, R):
    f = False
    for p, s in seqs.ways_out(q, w.h):
        if q_panics(q, s): continue
        f = B.OR(f, within(q, w, p, q.edge(p, s)))
    want = B.OR(B.NOT(has(q, w)), B.AND(has(q, w), above(q)))
    R.check(equiv(f, want), 'end', 'add_span', 'the walk ends when %s instead of at the end of the column or at a span that starts above the new one' % showf(f)[:200])
def q_panics(q, s): return seqs.dead_end(q, s)
def passes_(q, w, R):
    h = w.h
    for l in q.latches(h):
        f = within(q, w, l, q.edge(l, h))
        alt = {}
        for n, x in list(w.span.items()) + [('prev', w.prev)]:
            v = q.g.phi_args(x)[l]
            alt[n] = [(w.symf(q, c), z) for c, z in alternatives(q, h, v)]
        keep = B.AND(f, below(q)); merge = B.AND(f, B.NOT(below(q)))
        if not unsat(keep):
            for n in ('min', 'max', 'area'):
                bad = [z for c, z in alt[n] if not same(w.sym(z), new(n)) and not unsat(B.AND(keep, c))]
                R.check(not bad, 'pass', 'new ' + n, 'a span that does not touch the new one changes its %s' % n)
            bad = [z for c, z in alt['prev'] if not some(z, w.key) and not unsat(B.AND(keep, c))]
            R.check(not bad, 'pass', 'before', 'a span below the new one is not remembered as the one before it')
        if not unsat(merge):
            bad = [z for c, z in alt['prev'] if z is not w.prev and not unsat(B.AND(merge, c))]
            R.check(not bad, 'merge', 'before', 'a merged span is remembered as the one before the new span')
            for n, lo in (('min', True), ('max', False)):
                for c, z in alt[n]:
                    g = B.AND(merge, c)
                    if unsat(g): continue
                    R.check(extreme(q, g, w.sym(z), new(n), cur(n), lo), 'merge', n, 'the merged span takes %s as its %s' % (shown(w.sym(z))[:80], n))
            area(q, w, R, merge, alt)
def extreme(q, g, z, a, b, lo):
    if z.op in ('mins', 'maxs') and (z.op == 'mins') == lo: return {id(nf(x)) for x in z.a[0]} == {id(a), id(b)}
    if same(z, a): return implies(g, le(q, a, b) if lo else le(q, b, a))
    if same(z, b): return implies(g, le(q, b, a) if lo else le(q, a, b))
    return False
def area(q, w, R, merge, alt):
    """higher area of the two when the tops are within the threshold, the new span's own otherwise"""
    ins = mk('param', q.g.uid, 2); thr = fld(ins, 'flag_merge_threshold')
    for c, z in alt['area']:
        g = B.AND(merge, c)
        if unsat(g): continue
        v = w.sym(z); keeps = same(v, new('area'))
        for c2, top in alt['max']:
            g2 = B.AND(g, c2)
            if unsat(g2): continue
            near = near_f(q, w, g2, w.sym(top), thr, alt)
            if near is None:
                R.fail('merge', 'area', 'whether the tops are close enough is not decided by the merge threshold'); return
            if keeps: R.check(unsat(B.AND(g2, near)) or higher(q, g2, v), 'merge', 'area kept', 'the area of a span whose top lies within the merge threshold is not considered')
            else:
                R.check(higher(q, g2, v), 'merge', 'area', 'the merged span takes %s as its area' % shown(v)[:100])
                R.check(implies(g2, near), 'merge', 'area from near tops', 'the merged span takes the area of a span whose top is further away than the merge threshold')
def near_f(q, w, g, top, thr, alt):
    """the atom in g that compares |top - cur.max| with the threshold, as a formula that says they are within it"""
    for at in fatoms(g):
        if at.op != 'le0': continue
        p = dict(poly(at.a[0]))
        t = [m for m in p if len(m) == 1 and same(m[0][0], thr)]
        o = [m for m in p if m and m not in t]
        if len(t) == 1 and len(o) in (0, 1, 2) and all(len(m) == 1 for m in o) and not any(m[0][0].op == 'abs' for m in o):
            # the merged top is never below the old one, so the difference needs no sign
            k = p[t[0]]; c = p.get((), 0)
            d = from_poly({m: -p[m] / k for m in o})
            for c2, x in alt['max']:
                if unsat(B.AND(g, c2)) or not implies(g, c2): continue
                if same(w.sym(unwrapped(q, w, g, d)), nf(from_poly(padd(poly(w.sym(x)), poly(cur('max')), -1)))):
                    if k == -1 and c == 0: return B.var(at)
                    if k == 1 and c == 1: return B.NOT(B.var(at))
            continue
        if len(t) != 1 or len(o) != 1 or len(o[0]) != 1 or o[0][0][0].op != 'abs': continue
        d = o[0][0][0]
        if not gap_is(q, w, d, alt): continue
        k, j, c = p[t[0]], p[o[0]], p.get((), 0)
        if k == -1 and j == 1 and c == 0: return B.var(at)
        if k == 1 and j == -1 and c == 1: return B.NOT(B.var(at))
        return None
    return None
def unwrapped(q, w, g, d):
    """d with the values chosen in the case g"""
    d = nf(d)
    for y in list(walk_nodes(d)):
        if y.op == 'phi' and y.a[0] not in q.loops and q.cases(y):
            for c, z in q.cases(y):
                if not unsat(g) and implies(g, w.symf(q, c)): d = nf(subst(d, {y: z}))
    return d
def gap_is(q, w, d, alt):
    """d = |merged top - cur.max|, the merged top being the value the new span's top has afterwards"""
    p = poly(d.a[0])
    ms = {m[0][0]: k for m, k in p.items() if len(m) == 1 and m[0][1] == 1}
    if len(ms) != 2 or len(p) != 2 or cur('max') not in [w.sym(x) for x in ms]: return False
    y = [x for x in ms if w.sym(x) is not cur('max')]
    if len(y) != 1 or sorted(ms.values()) != [-1, 1]: return False
    for c, z in alternatives(q, w.h, y[0]):
        c = w.symf(q, c)
        for c2, t in alt['max']:
            if unsat(B.AND(c, c2)): continue
            if not same(w.sym(z), w.sym(t)): return False
    return True
def higher(q, g, v):
    """v is the higher of the two areas"""
    x = v.a[4][0] if v.op == 'agg' and len(v.a[4]) == 1 else v
    x = nf(x)
    def inner(s): return {id(nf(s)), id(nf(fld(s, '0')))}
    if x.op == 'maxs':
        t = {id(nf(y)) for y in x.a[0]}
        return len(t) == 2 and bool(t & inner(new('area'))) and bool(t & inner(cur('area')))
    a, b = nf(fld(new('area'), '0')), nf(fld(cur('area'), '0'))
    if id(x) in inner(new('area')): return implies(g, le(q, b, a))
    if id(x) in inner(cur('area')): return implies(g, le(q, a, b))
    return False
def heap(q, w):
    for e in q.events('store'):
        if isinstance(e.a[0], tuple) and e.a[0][:1] and e.a[0][0] == w.self_: yield e
def role(q, w, e, key):
    k = e.a[0]; i = nf(e.a[1][-1]) if e.a[1] else None
    if k[-1] == 'next' and i is not None and same(i, key): return 'link'
    if k[1] == 'spans' and i is not None and same(i, w.col): return 'head'
    return None
def nextof(w, v):
    return follows(v, w.cur)
def writes(q, w, R):
    inside = lambda e: w.h in q.chain(e.blk)
    got = {'link': False, 'head': False, 'remove': False}
    merge = B.AND(has(q, w), B.AND(B.NOT(above(q)), B.NOT(below(q))))
    for e in heap(q, w):
        if not inside(e): continue
        r = role(q, w, e, w.pkey)
        if not R.check(r is not None, 'unlink', 'places written', 'while the column is walked, %s is written' % str(e.a[0][1:])): continue
        R.check(nextof(w, nf(e.a[2])), 'unlink', r + ' value', 'what comes after a merged-away span is not linked in its place')
        got[r] = B.OR(got[r], within(q, w, e.blk))
    for e in q.events('call'):
        if not inside(e): continue
        n = strip_gen(str(e.a[0])).split('::')[-1]
        if n == 'remove':
            R.check(same(nf(e.a[2][1]), w.key), 'unlink', 'removed span', 'the span that is deleted is not the one that was merged')
            got['remove'] = B.OR(got['remove'], within(q, w, e.blk))
        elif any(nf(v).op in ('ref', 'sref') for v in e.a[2] if hasattr(v, 'op')) and n not in ('get', 'get_mut', 'index', 'index_mut', 'contains_key', 'len'):
            R.fail('unlink', 'other call', 'while the column is walked, %s may change the spans' % n)
    hp = hasprev(q, w)
    R.check(equiv(got['remove'], merge), 'unlink', 'deleted', 'a span is deleted under %s instead of exactly when it was merged' % showf(got['remove'])[:200])
    R.check(equiv(got['link'], B.AND(merge, hp)), 'unlink', 'link', 'the span before a merged-away one is not (only) then linked to the next one')
    R.check(equiv(got['head'], B.AND(merge, B.NOT(hp))), 'unlink', 'head', 'the column does not (only) then start with the next span when its first one is merged away')
def after_loop(q, w, e): return w.h not in q.chain(e.blk) and q.dominates(w.h, e.blk)
def insertion(q, w, R):
    hp = hasprev(q, w)
    ins = [e for e in q.events('call') if strip_gen(str(e.a[0])).split('::')[-1] == 'insert' and w.h not in q.chain(e.blk)]
    if not R.check(bool(ins), 'insert', 'add_span', 'the new span is never inserted'): return
    cover = False
    for e in ins:
        if not R.check(after_loop(q, w, e), 'insert', 'when', 'the new span is inserted before the column was walked'): continue
        g = keep_atoms(q, tail(q, w, e.blk), hp); cover = B.OR(cover, g)
        v = nf(e.a[2][1])
        for f in ('min', 'max', 'area'):
            R.check(w.sym(fld(v, f)) is new(f), 'insert', f, 'the inserted span has another %s than the merged one' % f)
        nx = nf(fld(v, 'next'))
        for c, z in tails(q, nx):
            k = B.AND(g, keep_atoms(q, c, hp))
            if not unsat(B.AND(k, hp)): R.check(reads(q, w, z, 'link') or not unsat(B.AND(B.AND(k, hp), True)) and reads(q, w, z, 'link'), 'insert', 'next after a span', 'the new span does not continue with what followed the span before it')
            if not unsat(B.AND(k, B.NOT(hp))): R.check(reads(q, w, z, 'head'), 'insert', 'next at the front', 'the new span does not continue with what the column started with')
    bl = {e.blk for e in ins}; rets = {e.blk for e in q.events('ret')}
    n = nf(fld(fld(mk('deref', mk('param', q.g.uid, 1)), 'spans'), '#len')); out = B.NOT(q.formula(mk('lt', w.col, n)))
    can = {b for b in range(len(q.g.succ)) if q.live[b] and q.reach([b]) & bl}
    free = q.reach([q.f.entry], without=bl)
    for b in sorted(free & can - bl):
        for s in q.g.succ[b]:
            if s in can or not q.live[s] or not (q.reach([s]) & rets): continue
            R.check(implies(B.AND(q.facts(b), q.edge(b, s)), out), 'insert', 'left out', 'there is a way round the insertion of the new span')
    R.check(taut(cover), 'insert', 'always', 'the new span is not inserted on every way')
    got = {'link': False, 'head': False}
    for e in heap(q, w):
        if w.h in q.chain(e.blk): continue
        if not R.check(after_loop(q, w, e), 'insert', 'writes before the walk', 'spans are changed before the column was walked'): continue
        r = role(q, w, e, w.pkey)
        if not R.check(r is not None, 'insert', 'places written', 'inserting a span writes %s' % str(e.a[0][1:])): continue
        val = nf(e.a[2])
        ok = val.op == 'agg' and val.a[2] == 'Some' and any(any(nf(y) is nf(i.a[4]) or same(y, i.a[4]) for y in [val.a[4][0]]) or joined(q, val.a[4][0], ins) for i in ins)
        R.check(ok, 'insert', r + ' value', 'what is linked in is not the inserted span')
        got[r] = B.OR(got[r], keep_atoms(q, tail(q, w, e.blk), hp))
    R.check(equiv(got['link'], hp), 'insert', 'link', 'the new span is not linked behind the span before it exactly when there is one')
    R.check(equiv(got['head'], B.NOT(hp)), 'insert', 'head', 'the column does not start with the new span exactly when there is none before it')
def joined(q, v, ins):
    v = nf(v)
    cs = q.cases(v) if v.op == 'phi' else None
    return bool(cs) and all(any(same(z, i.a[4]) for i in ins) for c, z in cs)
def tails(q, v):
    v = nf(v); cs = q.cases(v) if v.op == 'phi' and v.a[0] not in q.loops else None
    if not cs: return [(True, v)]
    return [(B.AND(c, g), z) for c, y in cs for g, z in tails(q, y)]
def tail(q, w, b):
    return q.facts(b)
def keep_atoms(q, f, hp):
    """what f says about whether there is a span before"""
    if f in (True, False): return f
    ks = set(fatoms(hp))
    can = lambda x: not unsat(B.AND(f, x))
    t, n = can(hp), can(B.NOT(hp))
    return True if t and n else hp if t else B.NOT(hp) if n else False
def reads(q, w, z, r):
    z = nf(z)
    if r == 'link':
        if z.op == 'fld' and z.a[1] == 'next': return z.a[0].op in ('elem', 'sel') and key_is(z.a[0], w.pkey) and head(z.a[0], w)
        return z.op in ('elem', 'sel') and z.a[0].op == 'phi' and z.a[0].a[0] == w.h and z.a[0].a[1][-1] == 'next' and key_is(z, w.pkey)
    return z.op in ('elem', 'sel') and z.a[0].op == 'phi' and z.a[0].a[0] == w.h and z.a[0].a[1][1:2] == ('spans',) and key_is(z, w.col)
def result(q, w, R):
    """an error leaves everything as it was, and is only given for a column outside the field"""
    n = nf(fld(fld(mk('deref', mk('param', q.g.uid, 1)), 'spans'), '#len'))
    out = q.formula(mk('lt', w.col, n)); out = B.NOT(out)
    for c, v, e in results(q):
        if v.op == 'agg' and v.a[2] == 'Err': R.check(implies(c, out), 'result', 'error', 'an error is returned for a column inside the field')
        elif v.op == 'agg' and v.a[2] == 'Ok': R.check(unsat(B.AND(c, out)) or implies(c, B.NOT(out)), 'result', 'ok', 'Ok is returned for a column outside the field')
        else: R.fail('result', 'other', 'what is returned is not understood')
