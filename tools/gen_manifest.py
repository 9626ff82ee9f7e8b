#!/usr/bin/env python3
import json, os, importlib.util, glob
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
checks=[]
for p in props:
    i=p['id']; c=os.path.join(H,'contracts',i.lower()+'.py'); proof=os.path.exists(c)
    note=''
    if proof:
        s=open(c).read(); k=s.find('LEVEL_NOTE'); ns={}
        for l in s.splitlines():
            if l.startswith('LEVEL_NOTE'): exec(l,ns); note=ns['LEVEL_NOTE']
    checks.append(dict(property=i,quick_cmd=f'python3 check.py {i} --tier quick',thorough_cmd=f'python3 check.py {i} --tier thorough',
      technique='contracts on the real functions, verification conditions from the clang AST discharged by z3/cvc5; bounded stand-in on the real code for the rest and for replay' if proof else 'bounded stand-in on the real code (contract proof not yet in place)',
      level='proof' if proof else 'exploration',level_note=note or 'bounded'))
m=dict(version=1,setup_cmd='bash setup.sh',hooks=dict(guard='none',enable='no hooks: the contracts live in /verif and attach to the functions by name'),checks=checks,not_applicable=[])
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
