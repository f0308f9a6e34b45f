import difflib, json, os, subprocess
V='/verif/seeded'
DEMO='''#!/bin/bash
# run in the repository's root; exit 0: the property holds, otherwise it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 %s -g -Iinclude "$d/demo.cpp" -o "$t/demo" -pthread || exit 2
timeout %d "$t/demo"
'''
base={}
def mk(id, prop, edits, demo, needs, breaks, flags='-O0', timeout=60):
    d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
    files={}
    for f,old,new in edits:
        p='include/kelcoro/'+f
        s=files.get(p) or open('/repo/'+p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        files[p]=s.replace(old,new)
    out=''
    added=set()
    for p,s in files.items():
        a=open('/repo/'+p).read()
        al=a.splitlines(True); bl=s.splitlines(True)
        if al and not al[-1].endswith('\n'): al[-1]+='\n'; al.append('\\ ')
        # use git diff for exactness
        t='/tmp/mkx'; os.makedirs(t+'/'+os.path.dirname('a/'+p),exist_ok=True); os.makedirs(t+'/'+os.path.dirname('b/'+p),exist_ok=True)
        open(t+'/a/'+p,'w').write(a); open(t+'/b/'+p,'w').write(s)
        r=subprocess.run(['git','diff','--no-index','--no-prefix','a/'+p,'b/'+p],cwd=t,capture_output=True,text=True)
        out+=r.stdout
        # removed lines must be original lines
        orig=set(subprocess.run(['git','-C','/repo','show','0dc5051:'+p],capture_output=True,text=True).stdout.splitlines())
        for l in r.stdout.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig: print('WARNING',id,'changes a line of a fix:',l)
    open(d+'/patch.diff','w').write(out)
    open(d+'/demo.cpp','w').write(demo.lstrip('\n'))
    open(d+'/demo.sh','w').write(DEMO%(flags,timeout)); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
