"""Lists that are filled element by element: which element ends up at which position, over which passes of which loop."""
from lib import *
def header_phis(q, h): return [x for x in q.header_phis(h)]
class Push:
    """one statement that appends to a list: at position init + stride*pass + off"""
    def __init__(s, q, e):
        s.q = q; s.e = e; s.key = e.a[0][:-1]; s.idx = nf(e.a[1][-1]); s.val = nf(e.a[2]); s.blk = e.blk
        s.h = q.loop(e.blk); s.init = s.idx; s.stride = 0; s.off = 0
        if s.h is None: return
        for x in walk_nodes(s.idx):
            if x.op == 'phi' and x.a[0] == s.h and x.a[2] == q.g.uid:
                d = {k: v for k, v in padd(poly(s.idx), patom(x), -1).items() if v}
                if set(d) - {()}: continue
                i = q.induction(x)
                if i is None: s.init = None; s.len = x; s.off = int(d.get((), 0)); return
                s.init, s.stride, s.off = nf(i[0]), int(i[1]), int(d.get((), 0)); s.len = x; return
    def at(s, t):
        """the element that ends up t places after the first one of the loop"""
        if s.stride != 1 or s.off != 0: return None
        return subst(s.val, counters(s.q, s.h, t))
def counters(q, h, t):
    """values of everything that counts the passes of a loop in pass t"""
    m = {}
    for x in q.header_phis(h):
        i = q.induction(x)
        if i is not None: m[x] = from_poly(padd(poly(i[0]), pmul(poly(t), pconst(i[1]))))
    return m
def pushes(q, key=None):
    """-> (pushes, other changes) of a list (or of every list)"""
    out, oth = [], []
    st = [e for e in q.events('store') if isinstance(e.a[0], tuple)]
    for e in st:
        k = e.a[0]
        if '[]' not in k and '#len' not in k: continue
        base = k[:-1]
        if key is not None and (k[:len(key)] != key or base != key): 
            if key is not None and k[:len(key)] == key: oth.append(e)
            continue
        if k[-1] == '[]':
            p = Push(q, e)
            if any(x.a[0] == base + ('#len',) and x.blk == e.blk and same(x.a[2], from_poly(padd(poly(p.idx), pconst(1)))) for x in st): out.append(p)
            else: oth.append(e)
        elif k[-1] == '#len':
            if not any(x.a[0] == base + ('[]',) and x.blk == e.blk and x.a[1] and same(e.a[2], from_poly(padd(poly(x.a[1][-1]), pconst(1)))) for x in st): oth.append(e)
    return out, oth
def ways_out(q, h):
    for b in sorted(q.loops[h]):
        for s in q.g.succ[b]:
            if s in q.loops[h] or not q.live[s]: continue
            yield b, s
def passes(q, h, fine=None, step=1):
    """(position, first, bound, why not): the position advances by one (step) in every pass, and the loop only ends when it reaches the bound"""
    why = 'nothing counts its passes'
    for x in q.header_phis(h):
        i = q.induction(x)
        if i is None or i[1] != step: continue
        bound = None
        for b in sorted(q.loops[h]):
            bound = q.upper(x, b)
            if bound is not None: break
        if bound is None or any(y.op == 'phi' and y.a[0] == h for y in walk_nodes(bound)): continue
        inside = q.formula(mk('lt', x, bound))
        bad = []
        for b, s in ways_out(q, h):
            c = B.AND(q.facts(b), q.edge(b, s))
            if unsat(c) or implies(c, B.NOT(inside)) or dead_end(q, s) or (fine and fine(b, s, c)): continue
            bad.append(showf(q.edge(b, s)) if q.edge(b, s) is not True else showf(q.guard(b, h)))
        if bad: why = 'it ends early when %s' % bad[0][:160]; continue
        return x, nf(i[0]), nf(bound), None
    for x in q.header_phis(h):          # counts down to zero
        i = q.induction(x)
        if i is None or i[1] != -step or step != 1: continue
        more = B.NOT(q.formula(V.eq(x, const(0)))); bad = False
        for b, s in ways_out(q, h):
            c = B.AND(q.facts(b), q.edge(b, s))
            if not (unsat(c) or implies(c, B.NOT(more)) or dead_end(q, s) or (fine and fine(b, s, c))): bad = True
        if not bad: return x, const(0), nf(i[0]), None
    return None, None, None, why
def dead_end(q, s):
    """nothing is returned any more"""
    rets = {e.blk for e in q.events('ret')}
    return not (q.reach([s]) & rets)
def every_pass(q, blk, h):
    """is blk run in every pass of loop h?"""
    return all(q.dominates(blk, l) for l in q.latches(h))
def always(q, blk):
    """blk (or its loop) is on every way to a return"""
    c = q.chain(blk); b = c[-1] if c else blk
    return all(q.dominates(b, e.blk) for e in q.events('ret'))
# ---------------------------------------------------------------- what a list holds
def listed(q, v, cond=True, t=None, depth=6):
    """a list value -> [(condition, length, element t, None | what is not understood)]"""
    t = T_ if t is None else t
    v = nf(v)
    if v.op == 'phi' and v.a[1][-1] not in ('[]', '#len') and q.cases(v) and depth:
        return [z for g, y in q.cases(v) for z in listed(q, y, B.AND(cond, g), t, depth - 1)]
    if v.op == 'vec0': return [(cond, const(0), None, None)]
    return listed_(q, V.elem(v, t), nf(fld(v, '#len')), cond, t, depth)
def listed_(q, el, n, cond, t, depth):
    ph = {x for x in walk_nodes(el) if x.op == 'phi' and '[]' in x.a[1] and x.a[0] in q.loops and x.a[2] == q.g.uid}
    if not ph: return [(cond, n, nf(el), None)]
    if len(ph) > 1: return [(cond, n, None, 'it is filled by several loops')]
    p = ph.pop(); h, key = p.a[0], p.a[1]; k = key.index('[]')
    if not same(el, V.elem(p, t)) and not same(el, V.sel(p, (t,))): return [(cond, n, None, 'its elements are %s' % shown(el)[:100])]
    ps, oth = pushes(q, key[:k])
    en, bk = q.entry_args(p); base = nf(en[0]) if len(en) == 1 else None
    if base is None: return [(cond, n, None, 'it has several origins')]
    st = [e for e in q.events('store') if isinstance(e.a[0], tuple) and e.a[0][:k + 1] == key[:k + 1] and h in q.chain(e.blk)]
    mine = [z for z in ps if z.h == h]
    if mine:
        if len(mine) > 1 or any(h in q.chain(e.blk) for e in oth): return [(cond, n, None, 'it is filled by several statements')]
        m = mine[0]; x, a, b, why = passes(q, h)
        for k in (2, 3, 4):
            if x is not None: break
            x, a, b, w2 = passes(q, h, step=k)
            if x is not None and num(a) == 0 and m.stride == 1 and m.off == 0 and num(m.init) == 0 and every_pass(q, m.blk, h):
                return [(cond, mk('call', 'groups of', (b, const(k)), None), nf(m.at(t)), None)]
            x = None
        if x is None: return [(cond, n, None, why)]
        if not (m.stride == 1 and m.off == 0 and every_pass(q, m.blk, h)): return [(cond, n, None, 'not every pass adds one element')]
        if num(m.init) != 0: return [(cond, n, None, 'it does not start empty')]
        return [(cond, from_poly(padd(poly(b), poly(a), -1)), nf(m.at(t)), None)]
    if len(st) == 1 and st[0].a[0] == key[:k + 1] and len(st[0].a[1]) == 1:
        e = st[0]; i = nf(e.a[1][0])
        if True:
            x, a, b, why = passes(q, h)
            if x is None: return [(cond, n, None, why)]
            if not (same(i, x) and num(a) == 0 and every_pass(q, e.blk, h)): return [(cond, n, None, 'not every element is rewritten')]
            if base.op == 'fld' and base.a[1] == '[]': ob = listed(q, base.a[0], cond, t, depth - 1)
            elif base.op == 'fld' and base.a[1].endswith('.[]'): ob = listed(q, fld(base.a[0], base.a[1][:-3]), cond, t, depth - 1)
            else: ob = listed_(q, V.sel(base, (t,)), n, cond, t, depth - 1)
            f = nf(e.a[2]); own = V.sel(p, (i,))
            m = counters(q, h, t); out = []
            for c, l, y, w in ob:
                if w or y is None: out.append((c, l, y, w)); continue
                if not same(b, l): out.append((c, l, None, '%s of %s elements are rewritten' % (shown(b)[:60], shown(l)[:60]))); continue
                g = subst(subst(f, {own: mk('sym', 'own')}), m)
                if any(w2 is p for w2 in walk_nodes(g)): out.append((c, l, None, 'an element is made from others')); continue
                out.append((c, l, nf(subst(g, {mk('sym', 'own'): y})), None))
            return out
    return [(cond, n, None, 'it is filled in a way that is not understood')]
T_ = mk('sym', 't')
# ---------------------------------------------------------------- iterators over queries
class Stream:
    """items of an iterator chain: [(condition, value)], made from item `it` of source `src`"""
    def __init__(s, src, it, out): s.src = src; s.it = it; s.out = out
def closure_results(P, clo, args, ops=()):
    """what a closure returns for these arguments (values; a reference parameter stands for its pointee)"""
    if clo.op == 'fnptr': path, caps = clo.a[0], ()
    elif clo.op == 'agg' and clo.a[0] == 'closure': path, caps = clo.a[1], list(zip(clo.a[3], clo.a[4]))
    else: return None
    if path not in P.bodies: return None
    q = analyse(P, path, ops)
    o = 0 if clo.op == 'fnptr' else 1
    m = {}
    p1 = mk('param', q.g.uid, 1)
    if o:
        for n, v in caps:
            for self_ in (mk('deref', p1), p1):
                f = fld(self_, n); m[mk('deref', f)] = v; m[f] = v
    for i, a in enumerate(args):
        p = mk('param', q.g.uid, i + 1 + o)
        m[mk('deref', p)] = a; m[p] = a
    return q, m
def query_loop(q, h, fine=None):
    """a loop over an iterator nothing is known about: (item, source, why not)"""
    cs = [e for e in q.events('call') if q.loop(e.blk) == h and strip_gen(e.a[0]).split('::')[-1] == 'next' and every_pass(q, e.blk, h)]
    if len(cs) != 1: return None, None, 'no iterator is advanced once in every pass'
    e = cs[0]; r = e.a[4]; it = nf(e.a[3][0])
    if it.op != 'phi' or it.a[0] != h: return None, None, 'the iterator is not the one of the loop'
    en, bk = q.entry_args(it)
    if len(en) != 1 or not all(nf(y).op == 'after' and nf(y).a[0] == r.a[2] for y in bk): return None, None, 'the iterator is advanced elsewhere as well'
    src = nf(en[0])
    if src.op == 'call' and strip_gen(src.a[0]).split('::')[-1] in ('iter', 'into_iter', 'iter_mut') and len(src.a[1]) == 1: src = nf(src.a[1][0])
    some = q.formula(V.eq(V.discr(r, 'core::option::Option'), const(FL.discr_of('core::option::Option', 'Some'))))
    for b, s in ways_out(q, h):
        c = B.AND(q.facts(b), q.edge(b, s))
        if unsat(c) or implies(c, B.NOT(some)) or dead_end(q, s) or (fine and fine(b, s, c)): continue
        return None, None, 'it ends early when %s' % showf(q.edge(b, s))[:160]
    return nf(fld(r, 'Some.0')), src, None, some
def loop_stream(q, v):
    ph = {x for x in walk_nodes(v) if x.op == 'phi' and '[]' in x.a[1] and x.a[0] in q.loops and x.a[2] == q.g.uid}
    if len(ph) != 1: return None
    p = ph.pop(); h = p.a[0]; key = p.a[1][:p.a[1].index('[]')]
    r = query_loop(q, h)
    if r[0] is None: return None
    item, src, _, some = r
    en, bk = q.entry_args(p)
    if len(en) != 1: return None
    ps, oth = pushes(q, key)
    if oth or any(z.h != h for z in ps): return None
    m = {item: ITEM}; out = []
    for z in ps:
        c = q.guard(z.blk, h)
        c2 = drop_atom(q, c, some)
        out.append((c2 if isinstance(c2, bool) else q.fsubst(c2, m), nf(subst(z.val, m))))
    return Stream(src, ITEM, out)
def drop_atom(q, c, known):
    """c where `known` holds"""
    return c if isinstance(c, bool) else B.restrict(c, dict(lits(known)))
def lits(f):
    """atoms whose value follows from f"""
    for a in (B.support(f) if not isinstance(f, bool) else []):
        if B.restrict(f, {a: True}) is False: yield a, False
        elif B.restrict(f, {a: False}) is False: yield a, True
def stream(P, q, v, ops=()):
    import conv
    v = nf(v)
    if v.op == 'upd': return loop_stream(q, v)
    if v.op != 'call': return None
    n = strip_gen(v.a[0]).split('::')[-1]; a = v.a[1]
    if n in ('collect', 'into_iter', 'by_ref', 'copied', 'cloned', 'fuse') and len(a) == 1 and (n != 'into_iter' or nf(a[0]).op == 'call'): return stream(P, q, a[0], ops)
    if n in ('iter', 'iter_mut', 'into_iter'): return Stream(nf(a[0]), ITEM, [(True, ITEM)])
    if n in ('filter_map', 'map', 'filter'):
        s = stream(P, q, a[0], ops)
        if s is None: return None
        out = []
        for c, it in s.out:
            r = closure_results(P, nf(a[1]), [it], ops)
            if r is None: return None
            q2, m = r
            for c2, v2, e in conv.results(q2, 'Some' if n == 'filter_map' else None):
                c3 = c2 if isinstance(c2, bool) else q2.fsubst(c2, m)
                if n == 'filter':
                    w = q2.formula(subst(v2, m)) if not isinstance(v2, bool) else v2
                    out.append((B.AND(c, B.AND(c3, w)), it)); continue
                w = nf(subst(v2, m))
                if n == 'filter_map' and not (v2.op == 'agg' and v2.a[2] == 'Some') and e is not None:
                    w, c3 = some_of(q2, e, v2, c3, w)
                out.append((B.AND(c, c3), w))
        s.out = [(c, w) for c, w in out if c is not False and not unsat(c)]
        return s
    return None
def some_of(q2, e, v2, c3, w): return w, c3
ITEM = mk('sym', 'item')
# ---------------------------------------------------------------- small matters
def empty(v):
    v = nf(v)
    return v.op == 'default' or v.op == 'agg' and all(nf(y).op == 'vec0' for y in v.a[4]) or call_is(v, 'default') and not v.a[1]
def strip_deref(v):
    v = nf(v)
    while v.op == 'deref' or v.op == 'fld' and v.a[1] == '*' or call_is(v, 'deref', 'as_ref', 'borrow'): v = nf(v.a[1][0] if v.op == 'call' else v.a[0])
    return v
def bare(v):
    """without conversions between types of the same meaning"""
    while True:
        v = nf(v)
        if v.op == 'call' and len(v.a[1]) == 1 and strip_gen(v.a[0]).split('::')[-1].rstrip('>') in ('into', 'from', 'clone', 'to_owned', 'to_vec'): v = v.a[1][0]
        elif v.op == 'call' and len(v.a[1]) == 1 and strip_gen(v.a[0]).split('::')[-1] in ('into', 'from', 'clone'): v = v.a[1][0]
        else: return v
def call_is(v, *names): return v.op == 'call' and strip_gen(v.a[0]).split('::')[-1] in names
def same_args(v, want): return len(v.a[1]) == len(want) and all(same(a, b) for a, b in zip(v.a[1], want))
def calls_in(c, name):
    out = {}
    for a in fatoms(c) if not isinstance(c, bool) else []:
        for y in walk_nodes(a) if hasattr(a, 'op') else []:
            if call_is(y, name): out[y] = 1
    return list(out)
def collected(q, e, h):
    """what call e appends to in loop h starts empty and is changed by nothing else -> [(key, holds?, what else)]"""
    acc = nf(e.a[3][0])
    if not (acc.op == 'phi' and acc.a[0] == h): return [('collected', False, 'what is gathered is appended to %s' % shown(acc)[:80])]
    en, bk = q.entry_args(acc)
    out = [('start', all(empty(y) for y in en), 'what is gathered is appended to %s' % [shown(y)[:80] for y in en])]
    import conv
    for y in bk:
        for c2, z in conv.top(q, y):
            out.append(('kept', same(z, acc) or z.op == 'after' and z.a[1] == 0 and z.a[2] == e.a[0] and same(z.a[3], acc), 'after a pass what was gathered is %s' % shown(z)[:120]))
    return out
def uncut(R, q, rule):
    """no number is cut down to fewer than 32 bits"""
    for e in q.events('cast'):
        to, fr, a = e.a
        R.check(to in ('u32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128') or to == 'i32' and fr in ('u16', 'u8', 'i16'), rule, 'conversion to ' + to, '%s is cut down to %s' % (shown(nf(a))[:80], to))
