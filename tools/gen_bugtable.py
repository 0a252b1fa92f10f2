#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = '## Planted bugs and the checks that catch them\n'
s = s.split(head)[0].rstrip() + '\n\n' + head + '''
Every planted bug below is caught by the quick check of its property (verified by applying the patch and running it).

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
'''
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    c = lambda x: ' '.join(str(x).split()).replace('|', '/')
    s += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], d['property'], c(d['what_it_breaks']), c(d['needs']))
open(p, 'w').write(s)
