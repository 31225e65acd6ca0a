"""addfixed.py PROPERTY COMMIT WHAT: record a repaired defect in known-findings.json"""
import json, sys
p, c, w = sys.argv[1:4]
f = '/verif/known-findings.json'
d = json.load(open(f))
d['findings'].append(dict(property=p, status='fixed', commit=c, what=w, entry=f'fixed: property={p} {c} {w}'))
json.dump(d, open(f, 'w'), indent=1, ensure_ascii=False)
open(f, 'a').write('\n')
