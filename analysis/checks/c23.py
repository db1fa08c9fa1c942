from conv import *
from checks.c05 import flat_cases
EXPLAIN = ('Both conversions between Image and its transmitted form are evaluated on the value graph of the inlined MIR and composed: every field of the received image, and of its texture and view descriptions, '
           'must be the field of the image that was sent, in every alternative; only labels, the list of view formats and the asset usage are exempt.')
R_ID = 'an image property arrives with its own value'
DROP = ('label', 'view_formats', 'asset_usage')
FIELDS = ['data', 'sampler', 'texture_view_descriptor'] + ['texture_descriptor.' + x for x in ('size', 'mip_level_count', 'sample_count', 'dimension', 'format', 'usage')]
VIEW = ('format', 'dimension', 'usage', 'aspect', 'base_mip_level', 'mip_level_count', 'base_array_layer', 'array_layer_count')
def pick(P, name, ty):
    f = [x for x in find(P, name, ty) if '::_::' not in x]
    return f[0] if len(f) == 1 else None
def path(v, p):
    for n in p.split('.'):
        if v.op == 'call' and strip_gen(v.a[0]).split('::')[-1] in RELABEL and n not in DROP:
            v = nf(v.a[1][0])       # keeps everything but the label (wgpu-types)
        v = nf(fld(v, n))
    return v
RELABEL = ('map_label', 'map_label_and_view_formats')
def run(P, R):
    f, g = pick(P, 'from_image', 'SerializedImage'), pick(P, 'into_image', 'SerializedImage')
    if not f or not g: R.fail('anchor', 'conversions', 'the conversions of Image no longer exist'); return
    qF, qG = analyse(P, f), analyse(P, g)
    pF, pG = mk('param', qF.g.uid, 1), mk('param', qG.g.uid, 1)
    if str(qF.f.locals[1][0]).startswith('&'): pF = mk('deref', pF)
    rF = [(c, v) for c, v, e in results(qF) if not unsat(c)]; rG = [(c, v) for c, v, e in results(qG) if not unsat(c)]
    if not rF or not rG: R.fail('anchor', 'conversions', 'no converted image is returned'); return
    for cF, s in rF:
        for cG, r in rG:
            for n in FIELDS:
                v = path(r, n); bad = []; k = 0
                names = sorted({x for c, y in flat_cases(qG, v) for x in fields_of(y, pG) | mentioned(c, pG)})
                outs = [(B.AND(cG, c), y, cF) for c, y in flat_cases(qG, v)]
                if '*' in names: R.fail(R_ID, n, 'the received %s is %s' % (n, shown(v)[:100])); continue
                for x in names:
                    nx = []
                    for c2, y2 in flat_cases(qF, nf(fld(s, x))):
                        m = {nf(fld(pG, x)): nf(y2)}
                        for c, y, kf in outs:
                            c = c if isinstance(c, bool) else qG.fsubst(c, m)
                            if c is not False: nx.append((c, subst(y, m), B.AND(kf, c2)))
                    outs = nx
                src = path(pF, n)
                for c, y, kf in outs:
                    c = B.AND(c, kf)
                    if unsat(c): continue
                    k += 1
                    y = nf(y)
                    bad += identity(qF, c, y, src, DROP, n)
                    if n == 'texture_view_descriptor' and y.op == 'agg' and y.a[2] == 'Some' and nf(y.a[4][0]).op == 'agg':
                        bad += ['%s.%s is not set' % (n, z) for z in VIEW if z not in nf(y.a[4][0]).a[3]]
                R.check(k and not bad, R_ID, n, '; '.join(sorted(set(bad))[:3]) or 'the received %s has no value' % n)
    R.floor(R_ID, 9)
