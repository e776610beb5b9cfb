#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, one section per property (tools/design_data.py), planted bugs, findings."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V+'/properties.jsonl')]
man = json.load(open(V+'/MANIFEST.json'))
claimed = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
D = {}
exec(open(V+'/tools/design_data.py').read())
out = ['## Properties decided', '']
for p in props:
    if p['id'] not in claimed: continue
    out += ['### %s %s' % (p['id'], p['title']), '', '*Technique:* %s.' % claimed[p['id']]['technique'], '', D.get(p['id'], '').strip() or claimed[p['id']]['level_note'], '']
out += ['## Not applicable', '']
for p in props:
    if p['id'] in na: out += ['* **%s** %s: %s' % (p['id'], p['title'], na[p['id']])]
out += ['', '## Planted bugs', '', '`seeded/<id>/`: each compiles, passes the stable tests, and has a demonstration. "caught" is the result of running the property\'s quick check with the patch applied.', '', '| id | property | needs | caught |', '|---|---|---|---|']
C = json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    out += ['| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), C.get(i, '?'))]
k = json.load(open(V+'/known_findings.json'))
out += ['', '## Genuine defects repaired (`fix:` commits in /repo)', ''] + ['* '+x for x in k['fixed']]
out += ['', '## Known findings (recorded, not repaired)', ''] + (['* `%s` %s: %s' % (x['property'], x['key'], x.get('what', '')) for x in k['known']] or ['None.'])
out += ['', NOTES2.strip(), '']
open(V+'/DESIGN.md', 'w').write(open(V+'/tools/design_head.md').read().replace('@@BODY@@', '\n'.join(out)))
