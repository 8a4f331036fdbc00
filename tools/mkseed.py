# mk(id, property, file, old, new, needs, breaks, demo_main)
import subprocess,os,json,shutil
DEMO_SH='''#!/bin/bash
# builds demo.cpp against the working tree (cwd) and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++17 -stdlib=libc++ -w -O1 -include "$d/scalar_prefix.h" -I"$PWD" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
def mk(id,prop,path,pairs,needs,breaks,demo):
    R=os.environ.get('PLANT','/tmp/pl')
    assert not subprocess.check_output(['git','-C',R,'status','--porcelain'])
    if isinstance(path,str): path={path:pairs}
    for p,prs in path.items():
        f=f'{R}/cmmcore/{p}'; s=open(f).read()
        for a,b in prs:
            assert s.count(a)==1,(p,a,s.count(a))
            s=s.replace(a,b)
        open(f,'w').write(s)
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff']).decode())
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    base=subprocess.check_output(['git','-C',R,'rev-list','--max-parents=0','HEAD']).decode().strip()
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): orig=set(subprocess.check_output(['git','-C',R,'show',base+':'+l[6:].strip()]).decode().split('\n'))
        elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in orig: print(id,'NOT AN ORIGINAL LINE:',l[1:].rstrip())
    open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo)
    shutil.copy('/opt/vp/support/scalar_prefix.h',d+'/scalar_prefix.h')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print(id,'made')
