#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(V + '/tool/props.txt').read())
with open(V + '/properties.jsonl', 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                             'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh build/hx && python3 -c "import sys; sys.path.insert(0, \'lib\'); import fx; fx.stamp()"',
     'hooks': {'guard': 'HELICS_VERIF_HOOKS', 'enable': 'none: the analysis reads the source and needs no hook', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in P:
    if p["na"]:
        m['not_applicable'].append({'property': p['id'], 'reason': p["na"]})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py ' + p['id'], 'thorough_cmd': 'python3 checks/run.py %s --thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
