# runs cases of one harness in the executor and shows what it says: one.py P33 spline[,other|all] [thorough]
import sys,os,tempfile,json,re
sys.path.insert(0,'/verif'); sys.argv,a=[sys.argv[0]],sys.argv[1:]
import check
e=check.engine(); psx,rt=e[0],e[1]
h=check.Harness('/verif/h/%s.cpp'%a[0])
d=tempfile.mkdtemp()
bc,log=h.bitcode(d,rt,a[2] if len(a)>2 else 'quick')
print('\n'.join(log.split('\n')[:12]))
if not bc: sys.exit(1)
cases=re.findall(r'PSX_CASE\((\w+)\)',open('/verif/h/%s.cpp'%a[0]).read()) if a[1]=='all' else a[1].split(',')
for c in cases:
    print('==',c,flush=True)
    os.system('timeout 600 %s %s --entry %s --out %s/o.json --timeout %s --solver-ms 5000 --max-instr %s --repo %s'%(psx,bc,c,d,os.environ.get('T','20'),h.opts.get(c,{}).get("max_instr","3000000") if hasattr(h,"opts") else "3000000",os.environ.get("PSX_REPO","/repo")))
    try: j=json.load(open(d+'/o.json'))
    except OSError: print('no result'); continue
    os.remove(d+'/o.json')
    print({k:j[k] for k in j if k in('paths','complete','incomplete','wall')})
    for v in j.get('violations',[])[:3]: print(str({k:v[k] for k in v if k!='inputs'})[:400] , str(v.get('inputs'))[:200])
import shutil; shutil.rmtree(d)
