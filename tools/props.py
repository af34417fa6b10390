#!/usr/bin/env python3
"""The property table: writes properties.jsonl and MANIFEST.json (kept in step with obl/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
        technique=technique or 'obligation folding: data-flow over compiler IR of obligations with unknown inputs',
        note=note or 'Every obligation in obl/%s is a function over unknown parameters that drives the library; discharged iff the IR data-flow passes prove every violated()/abnormal-end call dead. Template parameters are enumerated, values are not.' % id))
def na(id, reason): NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, 'tools/props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['title']
na_ids = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=p['id'],
    quick_cmd='python3 check.py ' + p['id'], thorough_cmd='env VERIF_TIER=thorough python3 check.py ' + p['id'],
    technique=p['technique'], level='other', level_note=p['note'])
    for p in P if p['id'] not in na_ids and os.path.isdir(os.path.join(V, 'obl', p['id']))], not_applicable=NA)
missing = [p['id'] for p in P if p['id'] not in na_ids and not os.path.isdir(os.path.join(V, 'obl', p['id']))]
if missing: print('no check yet:', missing); m['not_applicable'] += [dict(property=i, reason='not built yet') for i in missing]
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
