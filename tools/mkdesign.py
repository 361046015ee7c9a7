"""Fills the tables of DESIGN.md that are derived from other files (number of repairs, list of planted bugs)."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
rows = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('* `%s` (%s): %s; needs %s' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
n = len(json.load(open(os.path.join(V, 'known_findings.json')))['fixed'])
t = t.replace('%FIXES%', str(n))
t = re.sub(r'\(`fixed:` entries; \d+', '(`fixed:` entries; %d' % n, t)
b = '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->'
t = t.replace('%BUGS%', b) if '%BUGS%' in t else re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda m: b, t, flags=re.S)
open(p, 'w').write(t)
