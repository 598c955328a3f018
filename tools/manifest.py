import json,os
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
TECH=json.load(open(here+'/technique.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in TECH:
        t=TECH[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=t['technique'],level=t.get('level','exploration'),level_note=t['note']))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na)
H=json.load(open(here+'/hooks.json')) if os.path.exists(here+'/hooks.json') else None
if H: m['hooks']=H
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(na),"not")
