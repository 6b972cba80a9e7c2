"""tools/fixed.py PROP COMMIT TEXT: record a repaired defect."""
import json, sys
p = '/verif/known_findings.json'; k = json.load(open(p)); a, c, t = sys.argv[1:]
k['findings'].append(dict(property=a, status='fixed', commit=c, what='fixed: property=%s %s %s' % (a, c, t))); json.dump(k, open(p, 'w'), indent=1); open(p, 'a').write('\n')
