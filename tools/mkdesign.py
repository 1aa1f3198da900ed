#!/usr/bin/env python3
"""fills the tables of DESIGN.md (between the markers) from vc/props.py and seeded/"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/vc')
from props import PROPS
NA = getattr(__import__('props'), 'NOT_APPLICABLE', {})
rows = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); p = PROPS.get(d['id'], {})
    if not p or p.get('skip'): rows.append('| %s | not claimed: %s | | |' % (d['id'], NA.get(d['id'], 'check not built yet'))); continue
    fns = []
    for c in p['ct']:
        if not os.path.exists(V + '/contracts/' + c): continue
        fns.append(c)
    rows.append('| %s | %s | %s | %s |' % (d['id'], p['note'], ', '.join(fns), '; '.join(p.get('bounded', [])) or 'nothing'))
seeds = []
res = {}
if os.path.exists(V + '/seeded/RESULTS.txt'):
    for l in open(V + '/seeded/RESULTS.txt'):
        k, v = l.strip().split(' ', 1); res[k] = v
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    seeds.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, '?')))
s = open(V + '/DESIGN.md').read()
def put(s, name, text):
    b, e = '<!-- %s -->' % name, '<!-- /%s -->' % name
    if '@@%s@@' % name in s: return s.replace('@@%s@@' % name, b + '\n' + text + '\n' + e)
    return re.sub(re.escape(b) + r'.*?' + re.escape(e), lambda m: b + '\n' + text + '\n' + e, s, flags=re.S)
s = put(s, 'TABLE', '| id | decided by | contract files | bounded (driver) |\n|---|---|---|---|\n' + '\n'.join(rows)); s = put(s, 'SEEDS', '| change | property | what it breaks | needs | caught by its check |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
