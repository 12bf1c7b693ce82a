#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].strip().rstrip('.').replace('|', '/'), m['property']))
p = root + '/DESIGN.md'
s = open(p).read()
h = '| planted bug | needs | caught by |\n|---|---|---|\n'
i = s.index(h) + len(h)
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
