#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tool/design.txt, props.txt and seeded/*/meta.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, text=text, why=why, files=files, technique=technique, note=note, na=na))
exec(open(V + '/tool/props.txt').read())
t = []
for p in P:
    t.append('### %s %s' % (p['id'], p['title']))
    if p['na']:
        t.append('Not applicable: %s' % p['na'])
    else:
        t.append('* analysed: %s' % ', '.join(p['files']))
        t.append('* decided by: %s' % p['technique'])
        t.append('* ranges over: %s' % p['text'])
        t.append('* bounds and assumptions: %s' % p['note'])
        t.append('* why the tests cannot: %s' % p['why'])
    t.append('')
s = ['| change | property, caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    s.append('| %s | %s%s | %s | %s |' % (f.split('/')[-2], m['property'], m.get('caught', ''), m['needs'], m['what_it_breaks']))
d = open(V + '/tool/design.txt').read()
open(V + '/DESIGN.md', 'w').write(d.replace('@@TABLE@@', '\n'.join(t)).replace('@@SEEDS@@', '\n'.join(s)))
