#!/usr/bin/env python3
"""seed.py [ID...]: confirms planted bugs of /verif/seeded in a scratch copy of /repo and says
whether the property's check catches them. Development tool; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V='/verif'
env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', VERIF_SEED='1', VERIF_TIER='quick')
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, **k)
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
nocheck='-nocheck' in sys.argv
for i in ids:
    d=f'{V}/seeded/{i}'
    meta=json.load(open(d+'/meta.json'))
    t=tempfile.mkdtemp(prefix='seed'); r=t+'/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True)
        demo=t+'/demo'; shutil.copytree(d, demo)
        msg=[]
        a=sh('bash '+demo+'/demo.sh', r)
        msg.append('demo-clean=%d'%a.returncode)
        p=sh('git apply '+d+'/patch.diff', r)
        if p.returncode: print(i,'PATCH FAILS',p.stderr[:300]); continue
        b=sh('go build ./...', r); msg.append('build=%d'%b.returncode)
        if b.returncode: print(b.stderr[-500:])
        tt=sh('go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -v ^ok', r); msg.append('tests='+('ok' if not tt.stdout.strip() else 'FAIL '+tt.stdout[-400:]))
        a2=sh('bash '+demo+'/demo.sh', r); msg.append('demo-bug=%d'%a2.returncode)
        if a2.returncode==0 or a.returncode!=0: print((a.stdout+a.stderr)[-600:], (a2.stdout+a2.stderr)[-600:])
        if not nocheck:
            c=sh(f'{V}/bin/gover -repo {r} -verif {t}/v -proofs {V}/proofs -hints {V}/hints check {meta["property"]}', r) if False else None
            vd=t+'/v'; os.makedirs(vd); 
            for n in ('proofs','replayrt','hints','known-findings.json'):
                if os.path.exists(f'{V}/{n}'): (shutil.copytree if os.path.isdir(f'{V}/{n}') else shutil.copy)(f'{V}/{n}', f'{vd}/{n}')
            c=sh(f'timeout 900 {V}/bin/gover -repo {r} -verif {vd} check {meta["property"]}', r)
            vl=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('unit ')]
            msg.append('check=%d %s'%(c.returncode, 'CAUGHT' if c.returncode==1 and vl else 'MISSED'))
            if c.returncode==1 and all('no-failing' in l for l in vl if l.startswith('VIOL')): msg.append('(nfif)')
            msg.append(c.stdout.splitlines()[-1] if c.stdout else '')
            if '-v' in sys.argv: print('\n'.join(vl)[:3000])
        print(i, meta['property'], ' '.join(msg), flush=True)
    finally:
        shutil.rmtree(t)
