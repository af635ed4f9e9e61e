"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
i = d.index('## 5. Planted bugs')
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['needs']))
rows.sort()
out = '## 5. Planted bugs\n\nEach is caught by the check of its property (`tools/seedcheck.py`). Missed when first planted, and the rule added:\n`huge-numerals-clamped` (P13: floats forced into range before the check).\n\n| check | change | needs |\n|---|---|---|\n' + ''.join(f'| {p} | {s} | {n} |\n' for p, s, n in rows)
out += '\nBesides these, `tools/muts*.py` holds one-line changes that must be reported and rewritings that must not\n(`tools/mutsuite.py`; `--also=Pnn` runs one check on the rewritings of all others).\n'
open(V + '/DESIGN.md', 'w').write(d[:i] + out)
