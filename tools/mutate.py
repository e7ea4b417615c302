# mutation testing of harnesses: mutate.py Pxx[+Pyy..] N [seed] [line-regex]
# mutates source lines the harness executes, runs the executor, prints the mutants no case notices
import sys,os,re,random,subprocess,tempfile,shutil,json,concurrent.futures as cf,time
sys.path.insert(0,'/verif'); a=sys.argv[1:]; sys.argv=sys.argv[:1]
import check
P,N=a[0],int(a[1]); seed=int(a[2]) if len(a)>2 else 1; only=a[3] if len(a)>3 else ''
R=os.environ.get('PSX_REPO','/repo'); T=os.environ.get('T','40'); W=int(os.environ.get('W','4')); TIER='quick'
psx,rt=check.engine()
PS=P.split('+'); paths={p:'/verif/h/%s.cpp'%p for p in PS}
cases=[(p,c) for p in PS for c in re.findall(r'^PSX_CASE\((\w+)\)',open(paths[p]).read(),re.M)]
top=tempfile.mkdtemp(prefix='mut_')
def setup(d):
    subprocess.run('mkdir -p %s/repo && cp -a %s/src %s/repo/ && ln -s /repo/loki %s/repo/loki'%(d,R,d,d),shell=True,check=True)
def compile_(d,p):
    path=paths[p]
    h=check.Harness(path)
    out='%s/x.%s.bc'%(d,p)
    inc=["-I"+d+"/repo/src","-I"+d+"/repo","-I/repo/loki/include","-I/verif/h","-isystem","/usr/include/hdf5/serial"]
    fl=check.DEFS+h.bcflags+inc+h.flags
    parts=[]
    for i,s in enumerate([path]+[d+'/repo/src/'+x for x in h.src]):
        o='%s/%s.%d.bc'%(d,p,i)
        rc,log=check.run(check.bc_cmd(o,s,fl))
        if rc: return None
        parts.append(o)
    rc,log=check.run(["llvm-link-18"]+parts+[rt,"-o",out])
    return None if rc else out
def runcase(d,bc,c,lines=None):
    env=dict(os.environ)
    if lines: env['PSX_LINES']=lines
    o='%s/%s.%s.json'%(d,c[0],c[1])
    rc,log=check.run([psx,bc,'--entry',c[1],'--out',o,'--timeout',T,'--solver-ms','5000','--repo',d+'/repo','--max-violations','1'],float(T)*3+60,env)
    try: return json.load(open(o))
    except Exception: return {'violations':[],'incomplete':['crash %s'%rc],'complete':False}
d0=top+'/base'; os.makedirs(d0); setup(d0)
bcs={p:compile_(d0,p) for p in PS}; assert all(bcs.values())
cov={}; base={}
with cf.ThreadPoolExecutor(8) as ex:
    for c,j in zip(cases,ex.map(lambda c:runcase(d0,bcs[c[0]],c,d0+'/'+'.'.join(c)+'.lines'),cases)):
        base[c]=j.get('wall',0); assert not j['violations'],(c,j['violations'])
        try:
            for l in open(d0+'/'+'.'.join(c)+'.lines'):
                f,n=l.strip().rsplit(':',1); cov.setdefault(f[len(d0)+6:],{}).setdefault(int(n),[]).append(c)
        except OSError: pass
order=sorted(cases,key=lambda c:base[c])
SW=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r' \+= ',' -= '),(r' \+= ',' = '),(r' -= ',' += '),(r' \*= ',' = '),
 (r'= 0;','= 1;'),(r'= 1;','= 0;'),(r'= 0; (\w+) <',r'= 1; \1 <'),(r'\breturn true;','return false;'),(r'\breturn false;','return true;'),(r'\bcontinue;','break;'),(r'\bbreak;','continue;'),
 (r'\.first\b','.second'),(r'\.second\b','.first'),(r'rows\(\)','cols()'),(r'cols\(\)','rows()'),(r'std::conj\(','('),(r'PsimagLite::conj\(','('),(r'\bconj\(','('),(r'if \(!','if ('),(r'if \((?!!)',r'if (!('),
 (r'\[i\]','[j]'),(r'\[j\]','[i]'),(r'\(i, j\)','(j, i)'),(r'\+\+;','+=2;'),(r'\+\+(\w+)\)',r'\1 += 2)'),(r'(\w+)\+\+\)',r'\1 += 2)'),(r' % ',' / '),(r' << ',' >> '),(r' & ',' | '),(r' \| ',' & '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b2\b','3'),(r'\bi\b','(i + 1)')]
mut=[]
for f in sorted(cov):
    if not f.startswith('src/'): continue
    try: L=open(R+'/'+f).read().split('\n')
    except OSError: continue
    for n in sorted(cov[f]):
        if n<1 or n>len(L): continue
        s=L[n-1]
        if only and not re.search(only,f+':'+s): continue
        if s.strip().startswith(('//','#','*')) or 'assert' in s or 'cerr' in s or 'RuntimeError' in s or 'err(' in s: continue
        code=s.split('//')[0]
        for r,t in SW:
            for m in re.finditer(r,code):
                x=code[:m.start()]+m.expand(t)+code[m.end():]
                if r.startswith('if \\((?!'):
                    # negate: need a closing paren at the end
                    k=code.rstrip()
                    if not k.endswith(')') and not k.endswith(') {'): continue
                    x=re.sub(r'if \((.*)\)( \{)?$',r'if (!(\1))\2',k)
                if x!=code: mut.append((f,n,s,x))
        k=code.strip()
        if k.endswith(';') and not re.match(r'(return|typedef|break|continue|const |for|static|using|\}|delete)',k) and not re.match(r'^[\w:<>,\* &]+ \w+(\(.*\)|\[.*\]| = .*)?;$',k):
            mut.append((f,n,s,'/* gone */;' if True else ''))
random.Random(seed).shuffle(mut)
# at most two per line
cnt={}; pick=[]
for m in mut:
    if cnt.get(m[:2],0)<int(os.environ.get('PER','1')): cnt[m[:2]]=cnt.get(m[:2],0)+1; pick.append(m)
pick=pick[:N]
print('%s: %d covered lines, %d possible mutants, %d tried'%(P,sum(len(x) for x in cov.values()),len(mut),len(pick)),flush=True)
import threading
lock=threading.Lock(); free=[]
def one(m):
    f,n,s,x=m
    with lock:
        if free: d=free.pop()
        else:
            d=tempfile.mkdtemp(dir=top); setup(d)
    t=time.time()
    try:
        src=open(R+'/'+f).read().split('\n'); src[n-1]=x
        open(d+'/repo/'+f,'w').write('\n'.join(src))
        bcs={}
        inc=[]
        cs=[c for c in order if c in cov[f][n]]; cs+=[c for c in order if c not in cs]  # debug locations may be merged away
        for c in cs:
            if c[0] not in bcs:
                bcs[c[0]]=compile_(d,c[0])
                if not bcs[c[0]]: return 'nocompile',m,''
            j=runcase(d,bcs[c[0]],c)
            if j['violations']: return 'killed',m,'.'.join(c)+': '+j['violations'][0]['kind']+' '+j['violations'][0]['msg'][:60]
            if not j['complete']: inc.append('.'.join(c)+':'+str(j['incomplete'])[:60])
        return 'SURVIVED',m,' '.join(inc)
    finally:
        shutil.copy('/repo/'+f,d+'/repo/'+f)
        with lock: free.append(d)
st={}
with cf.ThreadPoolExecutor(W) as ex:
    for r,m,why in ex.map(one,pick):
        st[r]=st.get(r,0)+1
        if r=='SURVIVED' or os.environ.get('V'):
            print('%s %s:%d\n   - %s\n   + %s\n   %s'%(r,m[0],m[1],m[2].strip(),m[3].strip(),why),flush=True)
print(P,st,flush=True)
shutil.rmtree(top)
