"""writes DESIGN.md: the prose below, and one section per property from the properties, the manifest, the checks and the seeded bugs"""
import json, os, sys, ast
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
man = json.load(open(os.path.join(root, 'MANIFEST.json')))
claimed = {c['property']: c for c in man['checks']}; na = {c['property']: c['reason'] for c in man['not_applicable']}
seeds = {}
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json'))); seeds.setdefault(m['property'], []).append((d, m))
def explain(i):
    p = os.path.join(root, 'analysis', 'checks', i.lower() + '.py'); rules = []; ex = ''
    t = ast.parse(open(p).read())
    for s in t.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            try: v = ast.literal_eval(s.value)
            except Exception: continue
            if n == 'EXPLAIN': ex = v
            elif (n.startswith('R_') or n.startswith('RULE')) and isinstance(v, str): rules.append(v)
    return ex, rules
out = [open(os.path.join(root, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties, one by one', '']
for x in props:
    i = x['id']
    if i not in claimed: continue
    ex, rules = explain(i); c = claimed[i]
    out += ['### %s %s' % (i, x['title']), '', x['statement'], '',
            '* Method: %s.' % c['technique'], '* Analysed: %s' % ex, '* Reach and assumptions: %s' % c['level_note'].rstrip('.') + '.',
            '* Why tests cannot settle it: %s' % (x['why_tests_cant']).rstrip('.') + '.']
    if rules: out += ['* Rules:'] + ['  - ' + r for r in rules]
    if i in seeds: out += ['* Planted bugs caught by `./check.sh %s`:' % i] + ['  - `%s`: %s' % (d, m['what_it_breaks']) for d, m in seeds[i]]
    out.append('')
out += ['## Not applicable to this family here', '']
for x in props:
    if x['id'] in na: out.append('* %s %s: %s.' % (x['id'], x['title'], na[x['id']].rstrip('.')))
out += ['', open(os.path.join(root, 'tools', 'design_tail.md')).read().rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
