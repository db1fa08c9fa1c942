"""writes MANIFEST.json from props.py and the checks that exist"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(root, 'tools', 'techniques.py')).read())
na = dict(props.NA)
checks, out = [], []
for x in props.P:
    i = x['id']
    if i in na: out.append({'property': i, 'reason': na[i]}); continue
    if os.path.exists(os.path.join(root, 'analysis', 'checks', i.lower() + '.py')) and i in TECH:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'technique': t, 'level': 'other', 'level_note': note})
    else: out.append({'property': i, 'reason': 'the check for this property is not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': out}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(out), 'n/a')
