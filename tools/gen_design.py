#!/usr/bin/env python3
"""DESIGN.md = tools/design.md + the table of planted bugs (from seeded/*/meta.json)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(ROOT, 'tools', 'design.md')).read()
out += '\n### Planted bugs\n\nEach was written from the property and the code, confirmed in a scratch copy (builds, passes the 71 stable tests, its demonstration fails), and is caught by the quick check of its own property.\n\n| change | property | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(out)
