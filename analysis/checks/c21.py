from conv import *
EXPLAIN = ('The two conversions between StandardMaterial and its transmitted form are evaluated to one expression per field on the value graph of the inlined MIR and composed: for every field of the '
           'received material the composition must be the field of the sent one, alternative by alternative; a texture slot must be empty exactly if the slot it came from is, and be looked up by nothing else.')
R_ID = 'a property arrives with its own value'
R_ONE = 'every transmitted field feeds exactly one property'
R_TEX = 'a texture arrives in the slot it came from'
def opt(q, v):
    return V.eq(V.discr(v, 'core::option::Option'), const(1))
def struct(v, name):
    if v.op == 'agg' and strip_gen(v.a[1] or '').split('::')[-1] == name: return v
def forms(P, R, fn, name, wrap):
    q = analyse(P, fn)
    rs = []
    for c, v, e in results(q, wrap):
        if unsat(c): continue
        a = struct(v, name)
        if a is None: R.fail('anchor', short(fn), '%s returns %s, which is not put together field by field' % (short(fn), shown(v)[:120])); continue
        rs.append((c, a))
    return q, rs
def run(P, R):
    f = [x for x in find(P, 'try_from_standard_material', 'SerializedStandardMaterial') if '::_::' not in x]
    g = [x for x in find(P, 'into_standard_material', 'SerializedStandardMaterial') if '::_::' not in x]
    if not f or not g: R.fail('anchor', 'conversions', 'the conversions of StandardMaterial no longer exist'); return
    qF, rF = forms(P, R, f[0], 'SerializedStandardMaterial', 'Ok')
    qG, rG = forms(P, R, g[0], 'StandardMaterial', None)
    if not rF or not rG: R.fail('anchor', 'conversions', 'no converted material is returned'); return
    for cF, aF in rF:
        for cG, aG in rG: pair(P, R, qF, cF, aF, qG, cG, aG)
    R.floor(R_ID, 20); R.floor(R_TEX, 5)
def pair(P, R, qF, cF, aF, qG, cG, aG):
    pF = mk('param', qF.g.uid, 1); pG = mk('param', qG.g.uid, 1)
    sent = dict(zip(aF.a[3], aF.a[4]))
    users = {}
    for m, val in zip(aG.a[3], aG.a[4]):
        src = fld(pF, m)
        tv = top(qG, val)
        tex = any(x.op == 'agg' and x.a[2] == 'Some' and calls_in(x) for c, x in tv)
        if tex:
            texture(R, qF, pF, sent, qG, pG, m, tv, users); continue
        names, cs = compose(qF, sent, qG, pG, val)
        for n in names: users.setdefault(n, []).append(m)
        if not names:
            fed = [n for n, v in sent.items() if m in own(qF, v, pF)]
            if fed: R.fail(R_ID, m, 'the received property %s is a fixed value, although %s is transmitted' % (m, ', '.join(fed)))
            else: R.ok('properties that are not transmitted', m)
            continue
        bad = []
        for c, v in cs: bad += identity(qF, c, v, src, path=m)
        R.check(not bad, R_ID, m, '; '.join(sorted(set(bad))[:3]))
    for n in sent:
        u = users.get(n, [])
        R.check(len(u) == 1, R_ONE, n, 'the transmitted field %s is used for %s' % (n, ', '.join(u) or 'nothing'))
PURE = {'fld', 'param', 'agg', 'const', 'discr', 'poly'}
def calls_in(x):
    return any(y.op not in PURE for y in walk_nodes(x))
def own(q, v, p):
    s = set()
    for c, x in top(q, v): s |= fields_of(x, p) | mentioned(c, p)
    return s
def texture(R, qF, pF, sent, qG, pG, m, tv, users):
    """slot m of the received material"""
    some = none = False; names = set()
    for c, x in tv:
        if x.op == 'agg' and x.a[2] == 'None': none = B.OR(none, c)
        elif x.op == 'agg' and x.a[2] == 'Some':
            some = B.OR(some, c); names |= keys(x, pG)
        else: R.fail(R_TEX, m, 'the received %s is %s' % (m, shown(x)[:100])); return
    # the transmitted slot it hangs on
    cand = [n for n in sent if implies(some, qG.formula(opt(qG, fld(pG, n))))]
    cand = [n for n in cand if not names or n in names]
    if len(cand) != 1:
        R.fail(R_TEX, m, 'the received %s is present depending on %s' % (m, ', '.join(sorted(names)) or 'no transmitted slot')); return
    n = cand[0]; users.setdefault(n, []).append(m)
    R.check(names <= {n}, R_TEX, '%s image' % m, 'the image of the received %s comes from %s' % (m, ', '.join(sorted(names - {n}))))
    rest = B.AND(none, qG.formula(opt(qG, fld(pG, n))))
    lost = unsat(rest) or lookup_failed(qG, rest, fld(fld(pG, n), 'Some.0'))
    R.check(lost, R_TEX, '%s presence' % m, 'a transmitted %s is left out of %s when %s' % (n, m, showf(rest)[:160]))
    # and where that slot came from
    ok_none = ok_some = True; fn = set(); src = fld(pF, m)
    for c, x in top(qF, sent[n]):
        has = qF.formula(opt(qF, src))
        if x.op == 'agg' and x.a[2] == 'None': ok_none &= implies(c, B.NOT(has))
        elif x.op == 'agg' and x.a[2] == 'Some': ok_some &= implies(c, has); fn |= keys(x, pF)
        else: R.fail(R_TEX, m, 'the transmitted %s is %s' % (n, shown(x)[:100])); return
    R.check(ok_none and ok_some, R_TEX, '%s sent' % m, 'the transmitted slot %s, which becomes %s, is filled from another slot%s' % (n, m, ' (%s)' % ', '.join(sorted(fn)) if fn else ''))
    R.check(fn <= {m}, R_TEX, '%s handle' % m, 'the transmitted slot %s, which becomes %s, is looked up by %s' % (n, m, ', '.join(sorted(fn - {m}))))
def keys(x, p):
    return fields_of(x, p)
def lookup_failed(q, c, idx):
    """the only reason left is that nothing is at that position"""
    for a in fatoms(c):
        ns = list(walk_nodes(a))
        if not any(y is idx for y in ns): continue
        for y in ns:
            if y.op == 'fld' and y.a[1] == '#len' and implies(c, B.NOT(q.formula(V.lt(idx, y)))): return True
    return False
