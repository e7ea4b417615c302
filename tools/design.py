#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text of tools/design_intro.md, one section per property (what decides it, from this file;
bounds and assumptions, from the harness; repairs, from known_findings.json; planted bugs, from seeded/), tools/design_notes.md."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D={}
exec(open(V+'/tools/design_text.py').read())
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
known=json.load(open(V+'/known_findings.json'))
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(m)); seeds.setdefault(j['property'],[]).append((os.path.basename(os.path.dirname(m)),j['needs']))
o=[open(V+'/tools/design_intro.md').read().rstrip()+'\n']
o.append('\n# Property by property\n\nCosts are wall-clock seconds of the quick check on eight cores (compilation included); the evidence files give the\nfunctions encoded, paths, queries and solver time of the last run.\n')
for p in props:
    i=p['id']; h=V+'/h/%s.cpp'%i
    o.append('\n## %s %s\n'%(i,p['title']))
    if not os.path.exists(h):
        o.append('\nNot claimed: '+D[i].strip()+'\n'); continue
    t=open(h).read()
    d=lambda k:[x.strip() for x in re.findall(r'^//@ %s: (.*)$'%k,t,re.M)]
    cases=re.findall(r'^\s*PSX_CASE\((\w+)\)',t,re.M)
    o.append('\n'+D[i].strip()+'\n')
    o.append('\n*Bounds (quick/thorough):* '+'; '.join(d('bounds'))+'.\n')
    if d('assume'): o.append('\n*Assumed:* '+'; '.join(d('assume'))+'.\n')
    e=V+'/evidence/%s.json'%i
    o.append('\n*Cases:* '+', '.join(cases)+'.\n')
    f=[k for k in known if k['property']==i]
    if f:
        o.append('\n*Defects found:*\n'+''.join('- '+re.sub(r'^fixed: property=P\d+ ','repaired in ',k['what'])+'\n' for k in f))
    if i in seeds:
        o.append('\n*Planted bugs caught by this check:*\n'+''.join('- `%s` (needs: %s)\n'%s for s in seeds[i]))
o.append('\n'+open(V+'/tools/design_notes.md').read())
open(V+'/DESIGN.md','w').write(''.join(o))
