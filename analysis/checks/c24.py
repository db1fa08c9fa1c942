from conv import *
EXPLAIN = ('The encoder and decoder are evaluated on the value graph of their MIR into a chain of library steps; the decoder\'s chain must be the encoder\'s reversed, with the same constants, and a success must require the '
           'success of every step. For every serializable type the generated MIR of both directions is evaluated: the sequence of values written must be all fields, plain and unconditional, and the sequence read must be of the '
           'same types and rebuild the fields in the same places; enum alternatives are followed through their wire number.')
R_CODEC = 'the decoder undoes the steps of the encoder'
R_OK = 'a step that fails makes the whole fail'
R_TYPE = 'every field of a type takes part in both directions'
R_SET = 'every transmitted type can be sent and received'
RES = 'core::result::Result'; OPT = 'core::option::Option'
CR = ['rerecast', 'bevy_rerecast_core', 'bevy_rerecast_editor_integration', 'avian_rerecast', 'bevy_rerecast']
def last(n): return strip_gen(n).split('::')[-1]
def call(v, *names):
    return v.op == 'call' and last(v.a[0]) in names
PASS = {'context', 'with_context', 'ok_or', 'ok_or_else', 'map_err', 'as_slice', 'as_ref', 'as_deref', 'deref', 'as_bytes', 'borrow', 'into', 'into_boxed_slice', 'to_owned', 'clone', 'as_mut'}
def peel(v):
    """past unwrapping of successes, borrowing and whole slices"""
    while True:
        v = nf(v)
        if v.op == 'fld' and v.a[1] in ('Ok.0', 'Some.0', 'Continue.0'): v = v.a[0]; continue
        if v.op in ('deref',): v = v.a[0]; continue
        if v.op == 'slice' and num(v.a[1]) == 0 and same(v.a[2], fld(v.a[0], '#len')): v = v.a[0]; continue
        if call(v, *PASS): v = v.a[1][0]; continue
        return v
def codec(P, R):
    f = {n: [p for p in P.bodies if p.endswith('transmission::serialization::' + n) and P.bodies[p]['kind'] == 'fn'] for n in ('serialize', 'deserialize')}
    if any(len(v) != 1 for v in f.values()): R.fail('anchor', 'codec', 'the encoder and decoder no longer exist'); return
    qE, qD = analyse(P, f['serialize'][0]), analyse(P, f['deserialize'][0])
    enc = [chain_enc(R, qE, c, v, e) for c, v, e in results(qE, 'Ok') if not unsat(c)]
    dec = [chain_dec(R, qD, c, v, e) for c, v, e in results(qD, 'Ok') if not unsat(c)]
    if not enc or not dec: R.fail('anchor', 'codec', 'nothing is ever encoded or decoded'); return
    for a in enc:
        for b in dec:
            if a is None or b is None: continue
            for k, what in (('bin', 'binary format'), ('gz', 'compression'), ('b64', 'text alphabet')):
                R.check(a[k][0] == b[k][0] and (a[k][1] is b[k][1]), R_CODEC, what, 'the %s differs: %s %s against %s %s' % (what, a[k][0], shown(a[k][1])[:60] if a[k][1] is not None else '', b[k][0], shown(b[k][1])[:60] if b[k][1] is not None else ''))
def writer(q, v):
    """the calls that made a stateful value what it is, first to last, and what it was created as"""
    steps = []
    for _ in range(12):
        v = nf(v)
        if v.op != 'after': break
        es = [x for x in q.events('call') if x.a[4] is not None and x.a[0] == v.a[2] and site_of(x.a[4]) in (None, v.a[0]) and v.a[1] < len(x.a[3]) and x.a[3][v.a[1]] is not None and same(x.a[3][v.a[1]], v.a[3])]
        if len(es) != 1: return None, steps
        steps.insert(0, es[0]); v = v.a[3]
    return v, steps
def site_of(v):
    for x in v.a:
        if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) for y in x): return x
    return None
FMT = {'GzEncoder': 'gzip', 'GzDecoder': 'gzip', 'MultiGzDecoder': 'gzip', 'ZlibEncoder': 'zlib', 'ZlibDecoder': 'zlib', 'DeflateEncoder': 'deflate', 'DeflateDecoder': 'deflate'}
def fmt_of(v):
    s = [x for x in strip_gen(v.a[0]).split('::') if x in FMT]
    return FMT[s[0]] if s else None
def needs(R, q, c, v, what):
    """success only if the fallible call v succeeded"""
    ok = B.NOT(q.discr_atom(mk('discr', nf(v), RES), 1)) if True else None
    R.check(implies(c, ok), R_OK, what, 'the result is used although %s may have failed' % what)
def chain_enc(R, q, c, v, e):
    out = {}
    v = nf(v)
    if not (v.op == 'agg' and v.a[2] == 'String'): R.fail(R_CODEC, 'text', 'the encoder returns %s' % shown(v)[:100]); return
    v = peel(v.a[4][0])
    if not call(v, 'encode') or len(v.a[1]) != 2: R.fail(R_CODEC, 'text', 'the text is %s' % shown(v)[:100]); return
    out['b64'] = ('base64', nf(v.a[1][0]))
    raw = v.a[1][1]; v = peel(raw)
    if not (v.op == 'call' and call(v, 'finish') and fmt_of(v)): R.fail(R_CODEC, 'finished', 'the bytes sent are %s, not a finished compressed stream' % shown(v)[:100]); return
    needs(R, q, c, v, 'finish')
    out['gz'] = (fmt_of(v), None)
    w, steps = writer(q, v.a[1][0])
    if w is None or not call(w, 'new') or len(steps) != 1 or not call_event(steps[0], 'write_all'):
        R.fail(R_CODEC, 'written', 'the compressed stream is written by %s' % ', '.join(last(s.a[0]) for s in steps) or shown(v.a[1][0])[:80]); return
    needs(R, q, c, steps[0].a[4], 'write_all')
    sink = peel(w.a[1][0])
    R.check(sink.op == 'vec0' or shown(sink).startswith('vec0'), R_CODEC, 'fresh buffer', 'the compressed stream is appended to %s' % shown(sink)[:80])
    data = steps[0].a[3][1]
    d = peel(data)
    if not call(d, 'encode_to_vec'): R.fail(R_CODEC, 'bytes', 'the compressed bytes are %s' % shown(d)[:100]); return
    needs(R, q, c, d, 'encode_to_vec')
    a = peel(d.a[1][0])
    R.check(a is mk('param', q.g.uid, 1), R_CODEC, 'subject', 'the value encoded is %s' % shown(a)[:80])
    out['bin'] = ('bincode', nf(d.a[1][1]))
    R.ok(R_CODEC, 'encoder chain')
    return out
def call_event(e, *names): return last(e.a[0]) in names
def chain_dec(R, q, c, v, e):
    out = {}
    v = nf(v)
    if not (v.op == 'fld' and v.a[1] == '0'): R.fail(R_CODEC, 'decoded', 'the decoder returns %s' % shown(v)[:100]); return
    v = peel(v.a[0])
    if not call(v, 'decode_from_slice'): R.fail(R_CODEC, 'decoded', 'the decoder returns %s' % shown(v)[:100]); return
    needs(R, q, c, v, 'decode_from_slice')
    out['bin'] = ('bincode', nf(v.a[1][1]))
    b = peel(v.a[1][0])
    w, steps = writer(q, b)
    if w is None or not shown(w).startswith('vec0') or len(steps) != 1 or not call_event(steps[0], 'read_to_end', 'copy'):
        R.fail(R_CODEC, 'decompressed', 'the bytes decoded are %s' % shown(b)[:100]); return
    s = steps[0]
    needs(R, q, c, s.a[4], 'read_to_end')
    r = peel(s.a[3][0])
    if not call(r, 'new') or not fmt_of(r): R.fail(R_CODEC, 'decompressor', 'the stream read is %s' % shown(r)[:100]); return
    out['gz'] = (fmt_of(r), None)
    t = peel(r.a[1][0])
    if not call(t, 'decode') or len(t.a[1]) != 2: R.fail(R_CODEC, 'text decoded', 'the compressed bytes are %s' % shown(t)[:100]); return
    needs(R, q, c, t, 'decode')
    out['b64'] = ('base64', nf(t.a[1][0]))
    s = peel(t.a[1][1])
    while call(s, 'as_str') or s.op == 'deref': s = peel(s.a[1][0] if s.op == 'call' else s.a[0])
    R.check(s is mk('param', q.g.uid, 1) or s.op == 'fld' and s.a[1] == 'String.0', R_CODEC, 'source', 'the text decoded is %s' % shown(s)[:80])
    R.ok(R_CODEC, 'decoder chain')
    return out
# ---- types
def ok_only(q, c):
    """what is left of a condition once every step before has succeeded"""
    if isinstance(c, bool): return c
    m = {}
    for a in fatoms(c):
        d = a
        for x in walk_nodes(a):
            if x.op == 'discr' and x.a[1] == RES:
                f = q.discr_atom(x, 0) if False else None
        ds = [x for x in walk_nodes(a) if x.op == 'discr']
        top_ = [x for x in ds if x.a[1] in (RES, OPT)]
        if a.op == 'eq0':
            p = poly(a.a[0]); at = [mm[0][0] for mm in p if len(mm) == 1]
            if len(at) == 1 and at[0].op == 'discr' and at[0].a[1] == RES:
                k = -p.get((), 0) / p[((at[0], 1),)]; m[a] = (k == 0)
            elif len(at) == 1 and at[0].op == 'discr' and at[0].a[1] == OPT and any(x.op == 'call' for x in walk_nodes(at[0])):
                k = -p.get((), 0) / p[((at[0], 1),)]; m[a] = (k == 1)
    return B.restrict(c, m) if m else c
def types(P, R):
    S = {strip_gen(b['impl_self']): b for b in P.all if b.get('impl_trait') == 'serde::ser::Serialize' and b.get('name') == 'serialize' and b['crate'] in CR}
    D = {strip_gen(b['impl_self']): b for b in P.all if b.get('impl_trait') == 'serde::de::Deserialize' and b.get('name') == 'deserialize' and b['crate'] in CR and '__Field' not in b['impl_self']}
    root = [k for k in S if k.endswith('::NavmeshInputResponse')]
    R.check(bool(root), 'anchor', 'response', 'the response of the navmesh-input request cannot be serialized')
    need = set(); todo = list(root)
    while todo:
        k = todo.pop()
        if k in need or k not in P.adts: continue
        need.add(k)
        for v in P.adts[k]['variants']:
            for f in v['fields']:
                for a in P.adts:
                    if a.split('::')[0] in CR and a not in need and mentions(f[1], a): todo.append(a)
    for k in sorted(need):
        R.check(k in S and k in D, R_SET, short(k), '%s is part of a transmission but is not both serializable and deserializable' % k)
    n = 0
    for k in sorted(set(S) & set(D)):
        if k not in P.adts: continue
        one(P, R, k, S[k], D[k]); n += 1
    R.note('serializable types', n)
    R.floor(R_TYPE, 20)
def mentions(t, a):
    i = t.find(a)
    while i >= 0:
        j = i + len(a)
        if (j == len(t) or not (t[j].isalnum() or t[j] in '_:')) and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] in '_:')): return True
        i = t.find(a, j)
    return False
def visitors(P, k, d):
    """visitor methods generated for type k"""
    pre = d['path'] + '::'
    return {b['name']: b['path'] for b in P.all if b.get('impl_trait') == 'serde::de::Visitor' and strip_gen(b.get('impl_self') or '').startswith(strip_gen(d['path']) + '::__Visitor') and b.get('name')}, \
           {b['name']: b['path'] for b in P.all if b.get('impl_trait') == 'serde::de::Visitor' and strip_gen(b.get('impl_self') or '').startswith(strip_gen(d['path']) + '::__FieldVisitor') and b.get('name')}
def ty_of(e, i):
    g = e.a[1].get('_gargs') or []
    return show_ty(g[i]) if i < len(g) else None
def one(P, R, k, s, d):
    nm = short(k); adt = P.adts[k]
    vis, fv = visitors(P, k, d)
    if s.get('expn') and not s.get('derived'): return      # generated by a macro of another crate (slotmap keys, bit flags)
    if not s.get('derived') or not d.get('derived') or not vis:
        handwritten(P, R, k, s, d); return
    q = analyse(P, s['path']); me = mk('deref', mk('param', q.g.uid, 1))
    if adt['kind'] == 'enum': enum(P, R, k, nm, adt, q, me, vis, fv); return
    fields = [(f[0], f[1]) for f in adt['variants'][0]['fields']]
    wrote, why = written(q, me)
    if why: R.fail(R_TYPE, nm, 'writing %s: %s' % (nm, why)); return
    wn = [w[1] for w in wrote]
    miss = [f for f, t in fields if f not in wn]
    if not R.check(not miss and len(wn) == len(set(wn)), R_TYPE, '%s written' % nm, '%s is written without %s' % (nm, ', '.join(miss) or 'order')): pass
    m = vis.get('visit_seq')
    if not m:
        R.check(not fields, R_TYPE, '%s read' % nm, '%s cannot be read from a sequence' % nm); return
    qd = analyse(P, m)
    read, built, why = readback(qd, k)
    if why: R.fail(R_TYPE, '%s read' % nm, 'reading %s: %s' % (nm, why)); return
    R.check([w[0] for w in wrote] == [r[0] for r in read], R_TYPE, '%s types' % nm, '%s is written as (%s) but read as (%s)' % (nm, ', '.join(str(w[0]) for w in wrote), ', '.join(str(r[0]) for r in read)))
    bad = []
    for i, r in enumerate(read):
        to = [f for f, v in built.items() if v is r[1]]
        if i < len(wn) and to != [wn[i]]: bad.append('value %d, written from %s, becomes %s' % (i, wn[i], ', '.join(to) or 'nothing'))
    for f, t in fields:
        if not any(built.get(f) is r[1] for r in read): bad.append('%s is not read but set to %s' % (f, shown(built[f])[:60] if f in built else 'nothing'))
    R.check(not bad, R_TYPE, '%s read' % nm, 'reading %s: %s' % (nm, '; '.join(bad[:3])))
    if 'visit_newtype_struct' in vis and len(fields) == 1:
        qn = analyse(P, vis['visit_newtype_struct']); bad = []
        for c, v, e in results(qn, 'Ok'):
            if unsat(c): continue
            x = nf(fld(v, fields[0][0]))
            if not (x.op == 'fld' and x.a[1] == 'Ok.0' and call(x.a[0], 'deserialize')): bad.append(shown(x)[:80])
        R.check(not bad, R_TYPE, '%s newtype' % nm, 'reading %s gives %s' % (nm, '; '.join(bad)))
def written(q, me):
    out = []
    ev = [e for e in q.events('call') if last(e.a[0]) in ('serialize_field', 'serialize_newtype_struct', 'serialize_unit_struct', 'serialize_element', 'skip_field', 'serialize_struct', 'serialize_tuple_struct', 'end', 'serialize')]
    for e in ev:
        n = last(e.a[0])
        if n == 'skip_field': return out, 'a field is skipped'
        if n in ('serialize_field', 'serialize_newtype_struct', 'serialize_element'):
            if ok_only(q, q.facts(e.blk)) is not True: return out, 'a field is only written when %s' % showf(ok_only(q, q.facts(e.blk)))[:120]
            v = nf(e.a[3][-1] if e.a[3][-1] is not None else e.a[2][-1])
            while v.op in ('deref',) and v is not me: v = v.a[0]
            if not (v.op == 'fld' and v.a[0] is me): return out, 'instead of a field, %s is written' % shown(v)[:80]
            out.append((ty_of(e, 1), v.a[1]))
        if n == 'serialize': return out, '%s is called' % e.a[0]
    for c, v, e in results(q):
        if ok_only(q, c) is True and v.op == 'agg' and v.a[2] == 'Ok': return out, 'writing is not ended'
    return out, None
def readback(q, k):
    read = []
    for e in q.events('call'):
        if last(e.a[0]) == 'next_element':
            read.append((ty_of(e, 1), nf(fld(fld(e.a[4], 'Ok.0'), 'Some.0')), e.blk))
    done = [(c, v) for c, v, e in results(q, 'Ok') if not unsat(c)]
    if len(done) != 1: return read, {}, 'there are %d ways to finish' % len(done)
    c, v = done[0]
    if ok_only(q, c) is not True: return read, {}, 'it only succeeds when %s' % showf(ok_only(q, c))[:120]
    if v.op != 'agg' or strip_gen(v.a[1] or '') != k: return read, {}, 'the result is %s' % shown(v)[:80]
    return read, {n: present(q, nf(x)) for n, x in zip(v.a[3], v.a[4])}, None
def present(q, v):
    """a value with a default, when it was sent"""
    l = [y for c, y in top(q, v) if ok_only(q, c) is True]
    return nf(l[0]) if len(l) == 1 else v
KIND = {'serialize_unit_variant': 'unit', 'serialize_newtype_variant': 'newtype', 'serialize_tuple_variant': 'tuple', 'serialize_struct_variant': 'struct',
        'unit_variant': 'unit', 'newtype_variant': 'newtype', 'tuple_variant': 'tuple', 'struct_variant': 'struct'}
def enum(P, R, k, nm, adt, q, me, vis, fv):
    wire = {}
    for v in adt['variants']:
        dv = int(v['discr']); here = B.NOT(True)
        sel = q.formula(V.eq(V.discr(me, k), const(dv)))
        got = []
        for e in q.events('call'):
            if last(e.a[0]) not in KIND or e.a[0].split('::')[-1] not in KIND: continue
            F = q.facts(e.blk)
            if unsat(B.AND(F, sel)): continue
            if not implies(sel, ok_only(q, F)): got.append(('sometimes', None, None, None)); continue
            idx = num(nf(e.a[2][2])); kind = KIND[last(e.a[0])]
            val = None
            if kind == 'newtype':
                x = nf(e.a[3][-1] if e.a[3][-1] is not None else e.a[2][-1])
                if not (x.op == 'fld' and x.a[0] is me and x.a[1] == v['name'] + '.' + (v['fields'][0][0] if v['fields'] else '0')): got.append(('other value', None, None, None)); continue
                val = ty_of(e, 1)
            got.append((kind, idx, val, None))
        if len(got) != 1 or got[0][1] is None: R.fail(R_TYPE, '%s::%s written' % (nm, v['name']), '%s::%s is written as %s' % (nm, v['name'], got)); continue
        kind, idx, val, _ = got[0]
        want = 'unit' if not v['fields'] else 'newtype' if len(v['fields']) == 1 and v['fields'][0][0] == '0' else 'tuple' if v['fields'][0][0] == '0' else 'struct'
        if kind in ('struct', 'tuple') and kind == want:
            seq = []
            for e in q.events('call'):
                if last(e.a[0]) != 'serialize_field' or unsat(B.AND(q.facts(e.blk), sel)): continue
                x = nf(e.a[3][-1] if e.a[3][-1] is not None else e.a[2][-1])
                seq.append((ty_of(e, 1), x.a[1][len(v['name']) + 1:] if x.op == 'fld' and x.a[0] is me and implies(sel, ok_only(q, q.facts(e.blk))) else shown(x)[:60]))
            lack = [f[0] for f in v['fields'] if f[0] not in [y for t, y in seq]]
            R.check(not lack and len(seq) == len(v['fields']), R_TYPE, '%s::%s written' % (nm, v['name']), '%s::%s is written without %s' % (nm, v['name'], ', '.join(lack)))
            wire.setdefault(idx, []).append((v['name'], kind, seq)); continue
        if kind not in ('unit', 'newtype') or kind != want: R.fail(R_TYPE, '%s::%s written' % (nm, v['name']), '%s::%s is written as a %s alternative' % (nm, v['name'], kind)); continue
        R.ok(R_TYPE, '%s::%s written' % (nm, v['name']))
        wire.setdefault(idx, []).append((v['name'], kind, val))
    m, u = vis.get('visit_enum'), fv.get('visit_u64')
    if not m or not u: R.fail(R_TYPE, '%s read' % nm, '%s cannot be read' % nm); return
    qu, qe = analyse(P, u), analyse(P, m)
    arg = mk('param', qu.g.uid, 2)
    for idx, l in sorted(wire.items(), key=str):
        names = [x[0] for x in l]
        if len(l) != 1: R.fail(R_TYPE, '%s wire' % nm, '%s share a number on the wire' % ', '.join(names)); continue
        name, kind, val = l[0]
        sel = qu.formula(V.eq(arg, const(int(idx)))); f = []
        for c, v, e in results(qu):
            for c2, y in top(qu, v, c):
                if unsat(B.AND(sel, c2)): continue
                for c3, z in top(qu, nf(fld(y, 'Ok.0')) if not (y.op == 'agg' and y.a[2] == 'Err') else y, c2):
                    if not unsat(B.AND(sel, c3)): f.append(z)
        if len(f) != 1 or f[0].op != 'agg' or f[0].a[2] == 'Err': R.fail(R_TYPE, '%s::%s read' % (nm, name), 'number %s is read as %s' % (idx, [shown(x)[:60] for x in f])); continue
        fd = FL.discr_of(strip_gen(f[0].a[1]), f[0].a[2])
        got = []
        sels = [x for e in qe.events('switch') for x in ()]
        ev = [e for e in qe.events('call') if last(e.a[0]) == 'variant']
        if len(ev) != 1: R.fail(R_TYPE, '%s read' % nm, 'the alternative of %s is not read once' % nm); return
        tag = nf(fld(fld(ev[0].a[4], 'Ok.0'), '0'))
        sel = qe.formula(V.eq(V.discr(tag, strip_gen(f[0].a[1])), const(fd)))
        for c, v, e in results(qe):
            for c2, y in top(qe, v, c):
                if y.op == 'agg' and y.a[2] == 'Err': continue
                if unsat(B.AND(sel, c2)): continue
                y = nf(fld(y, 'Ok.0'))
                for c3, z in top(qe, y, c2):
                    if not unsat(B.AND(sel, c3)): got.append((c3, z))
        bad = None
        if len(got) != 1: bad = [shown(z)[:60] for c, z in got] or 'nothing'
        else:
            c, z = got[0]
            r = ok_only(qe, c)
            if not implies(sel, r): bad = 'only when %s' % showf(r)[:100]
            elif kind in ('struct', 'tuple'): bad = nested(P, k, qe, sel, name, kind, val, z)
            elif not (z.op == 'agg' and strip_gen(z.a[1] or '') == k and z.a[2] == name): bad = shown(z)[:80]
            elif kind == 'newtype':
                x = nf(z.a[4][0])
                t = {ty_of(e, 1) for e in qe.events('call') if last(e.a[0]) == 'newtype_variant' and not unsat(B.AND(qe.facts(e.blk), sel))}
                if not (x.op == 'fld' and x.a[1] == 'Ok.0' and call(x.a[0], 'newtype_variant')): bad = 'with %s' % shown(x)[:80]
                elif t != {val}: bad = 'with a %s instead of a %s' % (', '.join(map(str, t)), val)
        R.check(bad is None, R_TYPE, '%s::%s read' % (nm, name), '%s::%s is read back as %s' % (nm, name, bad))
def nested(P, k, qe, sel, name, kind, seq, z):
    """an alternative with fields of its own, read by a visitor of its own"""
    ev = [e for e in qe.events('call') if KIND.get(last(e.a[0])) == kind and not unsat(B.AND(qe.facts(e.blk), sel))]
    if len(ev) != 1 or not any(x is ev[0].a[4] for x in walk_nodes(z)): return shown(z)[:80]
    vt = strip_gen(ty_of(ev[0], len(ev[0].a[1].get('_gargs') or []) - 1) or '')
    for b in P.all:
        if b.get('impl_trait') != 'serde::de::Visitor' or b.get('name') != 'visit_seq' or 'visit_enum' not in b['impl_self'] or k not in b['impl_self']: continue
        q = analyse(P, b['path'])
        done = [(c, v) for c, v, e in results(q, 'Ok') if not unsat(c)]
        if len(done) != 1 or done[0][1].op != 'agg' or done[0][1].a[2] != name: continue
        if ok_only(q, done[0][0]) is not True: return 'only when %s' % showf(ok_only(q, done[0][0]))[:100]
        read = [(ty_of(e, 1), nf(fld(fld(e.a[4], 'Ok.0'), 'Some.0'))) for e in q.events('call') if last(e.a[0]) == 'next_element']
        if [t for t, x in read] != [t for t, f in seq]: return 'a sequence of other types'
        v = done[0][1]; built = {n.split('.')[-1]: present(q, nf(x)) for n, x in zip(v.a[3], v.a[4])}
        for (t, f), (t2, x) in zip(seq, read):
            if built.get(f) is not x: return 'another field in place of %s' % f
        return None
    return 'nothing'
def handwritten(P, R, k, s, d):
    R.fail(R_TYPE, '%s derived' % short(k), 'the serialization of %s is not derived from its fields' % k)
def run(P, R):
    codec(P, R)
    types(P, R)
    R.floor(R_CODEC, 5)
