#!/usr/bin/env python3
"""tools/kf.py fixed PROP COMMIT TEXT | finding PROP CLASS TEXT -- adds a line to known_findings.json"""
import json, sys
p='/verif/known_findings.json'
l=json.load(open(p))
k, prop, x, t = sys.argv[1:5]
if k=='fixed': l.append(dict(property=prop,status='fixed',commit=x,line=f'fixed: property={prop} {x} {t}'))
else: l.append({'property':prop,'status':'finding','class':x,'what':t})
open(p,'w').write('[\n'+',\n'.join(' '+json.dumps(e) for e in l)+'\n]\n')
