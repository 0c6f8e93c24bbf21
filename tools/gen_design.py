#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/."""
import os, re, collections
d = collections.defaultdict(list)
for n in sorted(os.listdir('/verif/seeded')):
    p, rest = n.split('-', 1)
    d[p.upper()].append(rest)
t = '| property | planted |\n|---|---|\n' + ''.join(f'| {p} | {", ".join(d[p])} |\n' for p in sorted(d))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'\| property \| planted[^\n]*\n\|---\|---\|\n(\| C\d\d \|[^\n]*\n)*', lambda m: t, s)
open('/verif/DESIGN.md', 'w').write(s)
print(sum(map(len, d.values())))
