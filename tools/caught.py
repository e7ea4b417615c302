# runs the check of each planted bug's property against a scratch copy with the bug: caught.py [id...]
import sys,os,subprocess,json,tempfile,shutil,time
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d='/verif/seeded/'+i
    p=json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='caught_')
    subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff'%(w,w,d),shell=True,check=True)
    t=time.time()
    r=subprocess.run(['python3','/verif/check.py',p,os.environ.get('TIER','quick')],env=dict(os.environ,PSX_REPO=w+'/r'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    l=[x for x in r.stdout.splitlines() if 'assert:' in x or 'memory' in x or 'INCOMPLETE' in x]
    print('%-28s %s exit %d %5.1fs %s'%(i,p,r.returncode,time.time()-t,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+p in r.stdout else 'MISSED'),'|',(l or [''])[0][:150],flush=True)
    if r.returncode not in (0,1): print(r.stdout[-800:])
    shutil.rmtree(w)
