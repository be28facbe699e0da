#!/usr/bin/env python3
# Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('* `%s` - %s (needs: %s)' % (os.path.basename(d[:-1]), m['what_it_breaks'], m['needs']))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\n\* `C\d\d-[^\n]*)+', lambda _: '\n' + '\n'.join(rows), s, count=1)
open(p, 'w').write(s)
