#!/usr/bin/env python3
"""prints the DESIGN.md table of planted bugs from seeded/*/meta.json"""
import json, os, glob
os.chdir(os.path.join(os.path.dirname(__file__), '..', 'seeded'))
print('| planted bug | breaks | what it does | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('*')):
    m = json.load(open(d+'/meta.json'))
    w = m['what_it_breaks'].strip().replace('|','/').replace('\n',' ')
    w = w if len(w) < 230 else w[:227]+'...'
    print('| %s | %s | %s | %s |' % (d, m['property'], w, m.get('caught_by', m['property'])))
