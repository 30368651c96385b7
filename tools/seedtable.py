#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json.  Not used by any check."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = V + '/DESIGN.md'
t = open(D).read(); h = '## Planted bugs\n'
head = t.split(h)[0].rstrip('\n') + '\n\n'
body = h + '''Each is a patch in `seeded/` with a demonstration; all compile, pass the stable tests, and are caught by the quick check of their property
(`tools/plant.py verify`).  Missed at first, and what was strengthened: C09-substbreak (subst_order added), a repetition count of 6 or 7 (C10
bounds), C01-begin (cached hashes added to the C01 states), and among mutants made mechanically from every source line: a padding block not
initialised in base64 (b64_same), an unchecked realloc (c_oom), a failed open that empties the Stream and `loading` left set (C14 load_name, load_hook).

| planted bug | needs | breaks |
|---|---|---|
'''
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); body += '| %s | %s | %s |\n' % (f.split('/')[-2], m['needs'], m['what_it_breaks'])
open(D, 'w').write(head + body)
