"""rows.py: adds missing planted bugs to the table of DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read().split('\n')
for d in sorted(os.listdir(V + '/seeded')):
    if any(('| %s |' % d) in l for l in s):
        continue
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows = [i for i, l in enumerate(s) if re.match(r'\| P\d\d \| p\d\d-', l) and l[2:5] <= m['property']]
    s.insert(rows[-1] + 1, '| %s | %s | %s |' % (m['property'], d, m['needs']))
    print(d)
open(V + '/DESIGN.md', 'w').write('\n'.join(s))
