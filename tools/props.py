#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/richdem/'
CLAIMED = {}
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': w} for n, w in state]
    P.append((d, claim, na))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash engine/build_exporter.sh', 'checks': [], 'not_applicable': [],
       'notes': NOTES}
for d, c, na in P:
    have = c and os.path.exists(os.path.join(V, 'checks', d['id'].lower() + '.py'))
    if have:
        man['checks'].append({'property': d['id'], 'quick_cmd': './check.sh %s quick' % d['id'],
                              'thorough_cmd': './check.sh %s thorough' % d['id'],
                              'technique': c[0], 'level': 'other', 'level_note': c[1]})
    else:
        man['not_applicable'].append({'property': d['id'], 'reason': na or 'check not built yet'})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'claimed')
