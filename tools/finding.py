#!/usr/bin/env python3
# tools/finding.py fixed ID commit text | tools/finding.py finding ID entry-regex match-regex text
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p)); a=sys.argv[1:]
if a[0]=='fixed': d['fixed'].append(f'fixed: property={a[1]} {a[2]} {a[3]}')
else: d['findings'].append({'property':a[1],'entry':a[2],'match':a[3],'what':a[4]})
json.dump(d,open(p,'w'),indent=1)
