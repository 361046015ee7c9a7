"""Writes MANIFEST.json from the properties that have a check (props/Cxx.py)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i + '.py')):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=n.get('technique', 'contract-based deductive verification: VC generation from the source, z3/cvc5'),
                           level='proof', level_note=n.get('note', NOTES['default'])))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, jsonschema" && python3-vt selftest/terms_fuzz.py 600 1', checks=checks, not_applicable=na,
               notes='Contract-based deductive verification with a VC generator of our own (pyvc) over the Python source of /repo; see DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
