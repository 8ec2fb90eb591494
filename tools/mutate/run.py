"""run.py MUTS.jsonl OUT.jsonl WORKERS PHASE: runs the checks against each mutant in copies of /repo and /verif.
PHASE 1: plain build, scale 1, stops at the first check that catches it. PHASE 2: the existing tests.
PHASE 3: race build, default scale. Input of 2 and 3: the output of the phase before (only survivors are run)."""
import sys,json,os,subprocess,threading,queue,re,shutil,time
muts,out,workers,phase=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
MAP=[
 (r'^enc/(numeric|scalar)','C04 C06 C03 C09 C02 C01 C33'),
 (r'^enc/time','C09 C06 C02 C10'),
 (r'^enc/json','C01 C03 C02 C07 C10 C08 C06'),
 (r'^enc/pairs','C07 C01 C10 C06 C05'),
 (r'^enc/(map|list|nil)','C02 C05 C06 C03 C04 C07 C10 C09 C33'),
 (r'^enc/io','C11'),
 (r'^enc/','C02 C05 C06 C03 C10 C04 C09 C07 C08 C11 C01 C12'),
 (r'^api/openapi','C15 C20'),
 (r'^api/test','C55'),
 (r'^api/','C12 C13 C14 C15 C18 C55'),
 (r'^http/ws/test','C29'),
 (r'^http/ws/','C24 C25 C26 C28 C27 C29'),
 (r'^http/test','C55'),
 (r'^http/client','C22 C18 C17'),
 (r'^http/call','C23 C19 C17'),
 (r'^http/','C16 C17 C18 C19 C20 C21 C23 C22'),
 (r'^shutdown','C30 C31 C21'),
 (r'^storage','C32 C33'),
 (r'^utils/caches','C34 C35 C36'),
 (r'^utils/prom','C37 C38 C19 C20'),
 (r'^utils/sync','C39 C40'),
 (r'^utils/ordered','C41'),
 (r'^utils/(lists|maps)','C42'),
 (r'^utils/io','C23'),
 (r'^utils/ast','C53'),
 (r'^utils/stack','C54 C46 C47 C53'),
 (r'^utils/','C33 C54'),
 (r'^ctx/log','C47 C48 C49'),
 (r'^ctx/(tags|detach)','C43 C44 C47 C45'),
 (r'^ctx/','C46 C45 C43 C44 C54 C47'),
 (r'^config','C50'),
]
def checks(f):
    for r,c in MAP:
        if re.match(r,f): return c.split()
    return []
W=f'/tmp/mw{phase}'
base=json.load(open('/opt/vp/BASELINE.json')) if phase==2 else None
q=queue.Queue(); lock=threading.Lock()
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['File'],d['Off'],d['End'],d['New']))
n=0
for l in open(muts):
    d=json.loads(l)
    if phase>1 and d['res']!='MISSED': continue
    if (d['File'],d['Off'],d['End'],d['New']) in done: continue
    q.put(d); n+=1
print(n,'to do',flush=True)
fo=open(out,'a')
def sh(cmd,env=None,timeout=None,cwd=None):
    p=subprocess.Popen(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",env=env,cwd=cwd,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout)
        return p.returncode,o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except Exception: pass
        subprocess.run(f'pkill -9 -f {cmd.split()[-3]}' if False else 'true',shell=True)
        p.communicate()
        return 124,''
def worker(k):
    D=f'{W}/{k}'; R=D+'/repo'; V=D+'/verif'
    shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    sh(f'cp -a /repo {R} && git -C {R} checkout -q -- . && mkdir -p {V}/evidence && cp -a /verif/mon /verif/*.sh /verif/KNOWN_FINDINGS.txt {V}/ && sed -i "s#=> /repo#=> {R}#" {V}/mon/go.mod')
    env=dict(os.environ,VERIF_DIR=V,VERIF_SEED='1',VERIF_TIER='quick',GOMAXPROCS='4')
    if phase==1: env['VERIF_SCALE']='1'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=R+'/'+m['File']; src=open(p,'rb').read()
        new=src[:m['Off']]+m['New'].encode()+src[m['End']:]
        open(p,'wb').write(new)
        t=time.time(); res='MISSED'; by=''
        try:
            if phase==2:
                rc,o=sh(f'. /verif/env.sh; cd {R} && go test -json ./...',env,300)
                passed={(d['Package'],d['Test']) for d in (json.loads(x) for x in o.split('\n') if x.startswith('{')) if d.get('Action')=='pass' and d.get('Test')}
                need=stable
                if not need<=passed: res='TESTS'
            else:
                mode='plain' if phase==1 else 'race'
                rc,o=sh(f'bash {V}/build.sh {mode}',env,300)
                if rc: res='BUILD'
                else:
                    b=f'{V}/.build/mon.{mode}'
                    lim='ulimit -v 16000000;' if phase==1 else ''
                    for c in checks(m['File']):
                        rc,o=sh(f'{lim} exec {b} check {c}',env,100 if phase==1 else 300)
                        if rc==1: res='CAUGHT'; by=c; break
                        if rc==124:
                            sh(f'pkill -9 -f {V}/.build')
                            res='TIMEOUT'; by=c; break
                        if rc: by+=f'{c}:rc{rc} '
        finally:
            open(p,'wb').write(src)
        m['res'],m['by'],m['t']=res,by,round(time.time()-t,1)
        with lock:
            fo.write(json.dumps(m)+'\n'); fo.flush()
if phase==2:
    def key(s): return s
    stable=set()
    # the tests that pass on the unchanged tree
    rc,o=sh('. /verif/env.sh; cd /repo && go test -json ./...',dict(os.environ),600)
    stable={(d['Package'],d['Test']) for d in (json.loads(x) for x in o.split('\n') if x.startswith('{')) if d.get('Action')=='pass' and d.get('Test')}
    rc,o=sh('. /verif/env.sh; cd /repo && go test -count=1 -json ./...',dict(os.environ),600)
    stable&={(d['Package'],d['Test']) for d in (json.loads(x) for x in o.split('\n') if x.startswith('{')) if d.get('Action')=='pass' and d.get('Test')}
    print(len(stable),'stable tests')
ts=[threading.Thread(target=worker,args=(k,)) for k in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
print('done')
