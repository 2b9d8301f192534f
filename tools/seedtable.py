"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(D + '/seeded')):
    m = json.load(open(f'{D}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['needs']))
rows.sort()
t = '\n'.join(f'| {i} | {p} | {n} |' for p, i, n in rows)
s = open(D + '/DESIGN.md').read()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
s = s[:a] + '<!-- seeded -->\n| planted bug | caught by | needs |\n|---|---|---|\n' + t + '\n' + s[b:]
open(D + '/DESIGN.md', 'w').write(s)
