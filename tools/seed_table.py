#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(here + '/DESIGN.md').read()
head = text[:text.index('| bug | property |')]
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m.get('caught_by', m['property'])))
open(here + '/DESIGN.md', 'w').write(head + '\n'.join(rows) + '\n')
