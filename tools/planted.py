#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/first.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = json.load(open(root + '/tools/first.json'))
rows = ['| change | needs | caught by | first |', '|--------|-------|-----------|-------|']
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    f = first.get(i, 'caught')
    by = m['property'] if not f.startswith('not caught') else '-'
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), by, f))
s = open(root + '/DESIGN.md').read()
s = re.sub(r'\| change \| needs \|.*?(?=\n\n|\Z)', lambda _: '\n'.join(rows), s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
