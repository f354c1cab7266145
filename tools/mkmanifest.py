import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=''.join(open(f).read() for f in sorted(glob.glob('/verif/contracts/*/*.go')))
claimed=set()
for m in re.finditer(r'^//@ harness (.*)$',src,re.M):
    claimed|={w for w in m.group(1).split() if re.match(r'^C\d\d$',w)}
exec(open('/verif/tools/levels.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed and i not in NA:
        lv,note=LEVEL.get(i,('proof',NOTE))
        checks.append(dict(property=i,quick_cmd=f'./run.sh check -property {i} -tier quick',thorough_cmd=f'./run.sh check -property {i} -tier thorough',
          technique='contract-based deductive verification of the real Go code (SSA symbolic execution, synthesised inductive loop invariants, rewriting + z3/cvc5)',
          level=lv,level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,'not built yet')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,notes='See DESIGN.md')
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
print([c['property'] for c in checks],[n['property'] for n in na])
