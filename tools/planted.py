#!/usr/bin/env python3
"""Renders the table of planted bugs into DESIGN.md (documentation only, no check uses it)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'P27', 'P29', 'Q04', 'Q06', 'Q07', 'R02', 'R05', 'R07', 'R23', 'R25', 'R30', 'R34', 'R35', 'S05', 'S06', 'S09', 'S23', 'S45', 'S48', 'S57', 'S60', 'S67', 'T02', 'T06', 'T08', 'T10', 'T11', 'T14', 'T16', 'T17', 'T18', 'T20', 'U07', 'U11', 'U13', 'V09', 'W02', 'W07', 'W08', 'X04', 'X53', 'X59', 'X71', 'Y02', 'Y33', 'Y47', 'Y66', 'Z12', 'Z40', 'Z43'}
rows = ['| change | check | what it breaks | first missed |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {'yes' if d.split('-')[0] in MISSED else ''} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- planted -->.*<!-- end -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
