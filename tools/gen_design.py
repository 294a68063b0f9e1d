"""Writes the per-property table of DESIGN.md from checks.py and properties.jsonl into DESIGN.md between the markers."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
from tools.gen_manifest import NOT
rows = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    rows.append('### %s %s\n' % (i, p['title']))
    c = checks.CHECKS.get(i)
    if c is None:
        rows.append('Not applicable: %s\n' % NOT.get(i, 'no check yet'))
        continue
    if c.get('design'):
        rows.append(c['design'] + '\n')
    for s in c['specs']:
        rows.append('- `%s.%s`: %s (%d configurations quick, %d thorough).' %
                    (s.module, s.func, s.bounds, len(s.quick), len(s.thorough)))
    rows.append('')
path = os.path.join(HERE, 'DESIGN.md')
t = open(path).read()
a, b = '<!-- properties -->', '<!-- /properties -->'
t = t[:t.index(a) + len(a)] + '\n\n' + '\n'.join(rows) + '\n' + t[t.index(b):]
open(path, 'w').write(t)
