"""plantpy.py FILE...: each FILE is a python file defining
  BUG, PROP, PKG, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (go test source), RACE (optional)
Applies the edits to a clean scratch copy /tmp/wt of /repo and runs plant.sh."""
import subprocess,sys,os,re
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
BASE=sh("git -C /repo rev-list --max-parents=0 HEAD | tail -1").stdout.strip()
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    sh("rm -rf /tmp/wt; cp -a /repo /tmp/wt; git -C /tmp/wt checkout -q -- .")
    print("==",g['BUG'],g['PROP'])
    ok=True; orig=False
    for file,old,new in g['EDITS']:
        p='/tmp/wt/'+file; s=open(p).read()
        if s.count(old)!=1: print("edit matches",s.count(old),file,repr(old[:60])); ok=False; break
        open(p,'w').write(s.replace(old,new))
        sh(f"gofmt -w {p}")
    if not ok: continue
    base_lines={}
    cur=None
    for l in sh("git -C /tmp/wt diff -U0").stdout.split("\n"):
        m=re.match(r'--- a/(.*)',l)
        if m:
            cur=m[1]; base_lines=set(sh(f"git -C /repo show {BASE}:{cur}").stdout.split("\n")); continue
        if l.startswith('-') and l[1:].strip() and l[1:] in base_lines and len(l.strip())>6: orig=True
    print("changes an original line:",orig)
    d=f"/verif/seeded/{g['BUG']}"; os.makedirs(d,exist_ok=True)
    if g.get('COPY'): # the demo reads its own source: a file of a copy of the tree
        sh(f"rm -f {d}/demo_test.go")
        open(d+'/demo_go.txt','w').write(g['DEMO'])
        open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_go.txt as a test in PKG of a copy of the current tree.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cp -a "$PWD" "$T/repo" && cp "$D/demo_go.txt" "$T/repo/PKG/zz_demo_test.go" && cd "$T/repo" || exit 99
timeout 200 go test -vet=off -count=1 -timeout 150s -run '^TestDemo$' ./PKG > "$T/out" 2>&1
rc=$?
tail -c 3000 "$T/out"
exit $rc
'''.replace('PKG',g['PKG']))
    else: open(d+'/demo_test.go','w').write(g['DEMO'])
    env=dict(os.environ); 
    if g.get('RACE'): env['RACE']='1'
    r=subprocess.run(["bash","/verif/tools/plant.sh",g['BUG'],g['PROP'],g['PKG'],g['NEEDS'],g['BREAKS']],text=True,capture_output=True,env=env)
    print(r.stdout[-1800:],r.stderr[-800:])
