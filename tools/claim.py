#!/usr/bin/env python3
# claim.py P10 "technique" "note"
import json,sys,subprocess
f='/verif/tools/technique.json'; d=json.load(open(f))
d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
d=dict(sorted(d.items())); json.dump(d,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write("\n")
subprocess.check_call(["python3","/verif/tools/manifest.py"])
