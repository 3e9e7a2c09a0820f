#!/usr/bin/env python3
"""DESIGN.md = docs/*.md + the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ''.join(open(f).read() for f in sorted(glob.glob(V + '/docs/*.md')))
rows = []
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
missed = {}
p = V + '/docs/missed.json'
if os.path.exists(p): missed = json.load(open(p))
out += '\n## 5. Planted bugs (%d)\n\nEach is caught by the check of its own property at the quick tier' % len(rows)
out += (', except ' + ', '.join('%s (%s)' % kv for kv in missed.items())) if missed else ''
out += '.\n\n| id | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(out)
