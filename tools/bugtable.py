#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the logs of tools/bugs.sh."""
import json, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(v + '/DESIGN.md').read()
old = dict(re.findall(r'^\| `([^`]+)` \| ([^|]*) \|', d, re.M))
rows = []
for i in sorted(os.listdir(v + '/seeded')):
    m = json.load(open(f'{v}/seeded/{i}/meta.json'))
    by = old.get(i, '?').strip()
    try:
        l = open(f'/tmp/bug-{i}.log').read()
        if 'VIOLATION property=' + m['property'] in l:
            r = re.search(r'VIOLATION property=\w+ replay=\S*?/out/' + m['property'] + r'-(.*)-1-(\d+)/', l)
            r = r or re.search(r'VIOLATION property=\w+ replay=\S*/regress/(\S+)', l)
            by = f'{r[1]}, case {r[2]}' if r.lastindex == 2 else f'regress/{r[1]}'
        else:
            by = 'MISSED'
    except OSError:
        pass
    rows.append(f"| `{i}` | {by} | {m['needs'].rstrip('.').replace('|', '/')} |")
head = '| planted bug | campaign and first case that catches it (seed 1) | what it needs |\n|---|---|---|\n'
d = re.sub(r'(BUGTABLE\s*|\| planted bug .*)\Z', lambda _: head + '\n'.join(rows) + '\n', d, flags=re.S)
open(v + '/DESIGN.md', 'w').write(d)
