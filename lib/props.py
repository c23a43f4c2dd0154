#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run to regenerate both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), technique='', level='model_checking', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state], mechanism=mechanism),
                  _t=technique, _l=level, _n=note, _na=na))


exec(open(os.path.join(V, 'lib', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks, na = [], []
for p in P:
    if p['_na']:
        na.append(dict(property=p['id'], reason=p['_na']))
    elif os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'],
                           thorough_cmd='./check.sh %s --thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=p['_t'], level=p['_l'], level_note=p['_n']))
    else:
        na.append(dict(property=p['id'], reason='no check has been built for this property yet'))
m = dict(version=1, setup_cmd='lib/build.sh', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
