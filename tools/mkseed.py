#!/usr/bin/env python3
"""mkseed.py SPEC.py: build /verif/seeded/<id>/ from a spec and confirm it.

SPEC.py defines: id, prop, needs, breaks, edits=[(file, old, new)...],
pkg (directory of the demo test), test (source of the demo test file).
Works in the scratch copy /tmp/mr (made from /repo if missing).
"""
import os, sys, json, subprocess, runpy, re
V=os.environ.get('V','/verif'); MR='/tmp/mr'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def reset():
    if not os.path.isdir(MR): sh('cp -a /repo '+MR)
    sh(f'cd {MR} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD')
DEMO='''#!/bin/bash
# Runs the demonstration test of this folder inside the package it exercises.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestSeededDemo' ./%(pkg)s
'''
full = '--notests' not in sys.argv
for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
    s=runpy.run_path(spec); d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    reset()
    bad=False
    for f,o,n in s['edits']:
        p=f'{MR}/{f}'; t=open(p).read()
        if t.count(o)!=1: print(s['id'],'edit matches',t.count(o),'times in',f); bad=True; break
        open(p,'w').write(t.replace(o,n))
    if bad: continue
    r=sh(f'. /opt/vp/env.sh; cd {MR} && gofmt -l {" ".join(f for f,_,_ in s["edits"])}; go build ./... && go vet '+' '.join('./'+os.path.dirname(f) for f,_,_ in s['edits']))
    if r.returncode or r.stdout.strip(): print(s['id'],'build/fmt:',r.stdout,r.stderr)
    diff=sh(f'cd {MR} && git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo_test.go.txt','w').write(s['test'])
    open(d+'/demo.sh','w').write(DEMO%s); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    a=sh(f'cd {MR} && bash {d}/demo.sh')
    ok = a.returncode!=0
    msg=a.stdout+a.stderr
    if 'build failed' in msg or 'setup failed' in msg: print(msg[:3000]); ok=False
    tests='skipped'
    if full:
        t=open('/opt/vp/test.sh').read().replace('cd /repo','cd '+MR)
        open('/tmp/mrtest.sh','w').write(t)
        sh('bash /tmp/mrtest.sh /tmp/mr.out.json')
        base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/mr.out.json'))
        def names(x): 
            return x
        stable=base.get('tests') or base.get('stable') or base.get('passed') or base
        passed=set(out.get('passed',[]))
        miss=[t for t in stable if t not in passed]
        tests=f'{len(passed)} passed, {len(miss)} stable missing {miss[:3]}'
    sh(f'cd {MR} && git checkout -q -- .')
    b=sh(f'cd {MR} && bash {d}/demo.sh')
    print(s['id'], 'FAILS-with' if ok else 'DOES-NOT-FAIL', 'passes-without' if b.returncode==0 else 'BROKEN-ON-CLEAN '+(b.stdout+b.stderr)[:2000], tests)
    if ok: print('   ',[l for l in msg.splitlines() if 'demo_test' in l or 'panic' in l][:2])
