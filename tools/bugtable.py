#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from the output of seed_catch.sh (files given as arguments)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d+): exit (\d) \((\d+) s\)(?:.*\(run (\d+) of)?', l)
        if m:
            got.setdefault(m[1], {})[m[2]] = (m[3], m[4], m[5])
rows = ['| planted bug | what it breaks | found by (quick check: run, seconds with minimisation) |', '|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/' + i + '/meta.json'))
    r = [f'{c}: ' + (f'run {x[2]}, ' if x[2] else '') + f'{x[1]} s' if x[0] == '1' else f'{c}: missed' for c, x in sorted(got.get(i, {}).items())]
    rows.append(f"| {i} | {m['what_it_breaks']} | {'; '.join(r) or '?'} |")
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
