#!/usr/bin/env python3
"""mkseeds.py SPEC.py: creates planted bugs. SPEC defines SEEDS = [(id, property, file, [(old, new)...], pkgdir,
go test source without package clause header, needs, breaks)]. Development tool."""
import sys, os, subprocess, json, shutil, re
R='/tmp/w/repo'
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestZZDemo$' ./%s
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
'''
if not os.path.isdir(R): subprocess.run(['git','clone','-q','/repo',R],check=True)
subprocess.run('git checkout -q -- . && git pull -q',shell=True,cwd=R,check=True)
ns={}; exec(open(sys.argv[1]).read(),ns)
for i,prop,f,edits,pkg,test,needs,breaks in ns['SEEDS']:
    p=R+'/'+f; s=open(p).read()
    for o,n in edits:
        assert s.count(o)==1,(i,s.count(o),o)
        s=s.replace(o,n)
    open(p,'w').write(s)
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=R,capture_output=True,text=True).stdout)
    subprocess.run('git checkout -q -- .',shell=True,cwd=R,check=True)
    open(d+'/demo.sh','w').write(DEMO%(pkg,pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.txt','w').write(test.lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(i)
