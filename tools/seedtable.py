#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
old = dict(re.findall(r'^\| (s\d\d-\S+) \| C\d\d \| (.*) \|$', s, re.M))
rows = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
    rows.append('| %s | %s | %s |' % (n, m['property'], old.get(n) or m['what_it_breaks'].rstrip('.')))
s = re.sub(r'(\| seed \| check \| what fails \|\n\|---\|---\|---\|\n)(?:\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
