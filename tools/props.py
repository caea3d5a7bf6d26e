#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique='', note='', level='proof', claimed=True, state=(), observe=(), reason=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    if claimed:
        C.append(dict(property=id, quick_cmd='./run check %s quick' % id, thorough_cmd='./run check %s thorough' % id, technique=technique, level=level, level_note=note))
    else:
        NA.append(dict(property=id, reason=reason))
C = []
exec(open(os.path.join(V, 'tools', 'proptable.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='./run setup', checks=C, not_applicable=NA,
               notes='Findings: known-findings.json. No hooks in /repo: contracts are attached to the real functions from /verif at build time.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
