#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'], m['property']))
s = open(V + '/DESIGN.md').read()
a, b = '<!-- planted -->', '<!-- end planted -->'
i, j = s.index(a), s.index(b)
open(V + '/DESIGN.md', 'w').write(s[:i] + a + '\n' + '\n'.join(rows) + '\n' + s[j:])
