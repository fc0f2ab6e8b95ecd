#!/usr/bin/env python3
# regenerates the per-property table of DESIGN.md from specs.py and the seeded table from seeded/*/meta.json
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['## Properties', '']
for pid in sorted(specs.PROPS):
    p = specs.PROPS[pid]
    out += ['### %s %s' % (pid, p['title']), '', p['statement'], '']
    if p.get('na'):
        out += ['Not applicable: ' + p['na'], '']; continue
    out += ['* quantified over: ' + p['quant'], '* why tests do not settle it: ' + p['why'],
            '* harnesses: ' + ', '.join(sorted({'`harness/%s`' % j.harness for j in p['quick']})) + '; oracle: the reference model in the harness (independent of the code under test)',
            '* bounds: ' + p['bounds'], '* outside the bounds: ' + p['outside']]
    if p.get('design'): out.append('* notes: ' + p['design'])
    out.append('')
out += ['## Planted bugs', '', '`seeded/<id>`; each compiles, passes the 88 stable tests and is caught by the check named (result in the last column).', '', '| id | property | needs | result |', '|---|---|---|---|']
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = m.split('/')[-2]
    out.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], res.get(i, '')))
s = open(V + '/DESIGN.md').read(); mark = '<!-- generated -->\n'
s = s.split(mark)[0].rstrip() + '\n\n' + mark + '\n'.join(out) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
