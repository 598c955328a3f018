#!/usr/bin/env python3
# kf.py P08 <commit> "what failed"  -> adds a "fixed" entry
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f))
d['fixed'].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4])); json.dump(d,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write("\n")
