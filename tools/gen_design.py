#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(root, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/').replace('\n', ' ')))
t = '| caught by | planted bug | needs |\n|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in sorted(rows))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: f'<!-- seeded -->\n{t}<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
