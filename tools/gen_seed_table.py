#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md between its two markers."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append('`%s` %s' % (os.path.basename(os.path.dirname(f)), m['needs']))
text = '| check | caught by its quick tier: planted bug and what it needs |\n|---|---|\n' + \
       ''.join('| %s | %s |\n' % (p, '; '.join(r)) for p, r in sorted(rows.items()))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*(<!-- /seeds -->\n)', lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
