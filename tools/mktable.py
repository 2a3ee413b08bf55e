#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from /verif/seeded."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(V + '/DESIGN.md').read()
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['property']))
i = s.index('| change | what it breaks')
s = s[:i] + '| change | what it breaks | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
s = re.sub(r'(## Planted bugs\n\n)\d+', r'\g<1>%d' % len(rows), s)
open(V + '/DESIGN.md', 'w').write(s)
