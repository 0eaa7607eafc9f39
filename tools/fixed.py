#!/usr/bin/env python3
# fixed.py PROPERTY id commit "what failed": record a repaired defect
import json,sys
p,i,c,w=sys.argv[1:5]; k=json.load(open('/verif/known_findings.json'))
k.append(dict(property=p,id=i,status="fixed",commit=c,what="fixed: property=%s %s %s"%(p,c,w)))
json.dump(k,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
