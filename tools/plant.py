# plants a bug: plant.py SPECFILE...  (a spec is a python file defining id, prop, edits, demo, needs, breaks, [libs])
# works in a scratch copy of /repo; keeps the bug under seeded/ only if it builds, the stable tests pass,
# and the demonstration tells the two trees apart
import sys,os,subprocess,json,shutil
W=os.environ.get('PLANT_DIR','/tmp/plant/w')
def run(c,**k): return subprocess.run(c,shell=isinstance(c,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
R=$PWD
g++ -std=c++17 -O1 -pthread -DUSE_PTHREADS -DUSE_BOOST -DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -I"$R"/src -I"$R" -I"$R"/loki/include -I/usr/include/hdf5/serial "$here"/demo.cpp -o "$d"/demo %s || exit 2
cd "$d" && timeout 60 ./demo
'''
LIB='"$R"/_build/psimaglite/src/libpsimaglite.a -L/usr/lib/x86_64-linux-gnu/hdf5/serial -llapack -lblas -lhdf5_serial_cpp -lhdf5_serial -lpthread'
base=json.load(open('/opt/vp/BASELINE.json'))
P=W+'_project'
if not os.path.exists(W):
    os.makedirs(os.path.dirname(W),exist_ok=True)
    run(['git','clone','-q','/repo',W])
    shutil.copytree('/opt/vp/project',P)
    for r,_,fs in os.walk(P):
        for f in fs:
            t=open(r+'/'+f).read(); open(r+'/'+f,'w').write(t.replace('/repo',W))
    print(run('CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE= "-DCMAKE_CXX_FLAGS=-O2 -g1" -DBUILD_TESTING=ON -DCMAKE_DISABLE_FIND_PACKAGE_MPI=ON && ninja -C %s/_build'%(P,W,W)).stdout[-300:])
run('git fetch -q /repo && git reset -q --hard FETCH_HEAD',cwd=W)
for spec in sys.argv[1:]:
    g={'lib':False,'LIB':LIB}
    exec(open(spec).read(),g)
    d='/verif/seeded/'+g['id']
    run('git checkout -q -- .',cwd=W)
    for f,a,b in g['edits']:
        p=W+'/'+f; s=open(p).read()
        if s.count(a)!=1: print(g['id'],'EDIT occurs',s.count(a),'times:',a); break
        open(p,'w').write(s.replace(a,b))
    else:
        diff=run('git diff',cwd=W).stdout
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.cpp','w').write(g['demo'])
        open(d+'/demo.sh','w').write(SH%(LIB if g['lib'] else ''))
        json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
        # demonstration on both trees (library objects are those of the scratch copy)
        run('git checkout -q -- .',cwd=W)
        if g['lib']: b0=run('ninja -C _build psimaglite',cwd=W)
        ok0=run(['bash',d+'/demo.sh'],cwd=W)
        run(['git','apply',d+'/patch.diff'],cwd=W)
        b=run('ninja -C _build',cwd=W)
        ok1=run(['bash',d+'/demo.sh'],cwd=W)
        shutil.rmtree(W+'/_build/run',ignore_errors=True)
        run('ctest --test-dir _build -j4 --timeout 300 --output-junit %s/_build/ctest.xml'%W,cwd=W)
        r=run(['python3','/opt/vp/results.py',W+'/_build/o.json','junit:%s/_build/ctest.xml'%W])
        o=json.load(open(W+'/_build/o.json'))
        bad=sorted(set(base['stable'])-set(o['passed']))
        print('==',g['id'],'clean demo',ok0.returncode,'patched demo',ok1.returncode,'build',b.returncode)
        if ok0.returncode: print(ok0.stdout[-1500:])
        if b.returncode: print(b.stdout[-1500:])
        print('   ',ok1.stdout[-300:].strip()); print('    stable tests failing:',bad)
        good=not(ok0.returncode or b.returncode or bad) and ok1.returncode!=0
        print('    ','KEPT' if good else 'REJECTED'); good or os.rename(d,'/tmp/plant/rej_'+g['id'])
        run('git checkout -q -- .',cwd=W)
