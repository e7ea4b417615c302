#!/usr/bin/env python3
"""adds a 'fixed' record: fixed.py Pxx COMMIT what"""
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=H+"/known_findings.json"; k=json.load(open(f))
def dump():
    open(f,"w").write("[\n"+",\n".join(" "+json.dumps(x) for x in k)+"\n]\n")
p,c,w=sys.argv[1:4]
k.append(dict(property=p,case="",status="fixed",what="fixed: property=%s %s %s"%(p,c,w)))
dump()
