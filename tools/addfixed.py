#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT WHAT: records a repaired defect."""
import json, sys
p, c, w = sys.argv[1:]
f = '/verif/known-findings.json'
k = json.load(open(f))
i = next((n for n, x in enumerate(k['findings']) if x['kind'] == 'known'), len(k['findings']))
k['findings'].insert(i, dict(property=p, kind='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, w)))
json.dump(k, open(f, 'w'), indent=1)
