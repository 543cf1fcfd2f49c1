#!/usr/bin/env python3
"""matrix.py [--own] [--jobs N] [--checks C01,C02] [BUG...]: run the quick checks against planted bugs.
Works in copies of /repo and /verif that are bind mounted over the originals in a private mount
namespace, so that nothing here touches the real ones. Writes /tmp/mx/matrix.json (merged)."""
import sys, os, json, subprocess, shutil, argparse, queue, threading, time
a=argparse.ArgumentParser(); a.add_argument('--own',action='store_true'); a.add_argument('--jobs',type=int,default=4)
a.add_argument('--checks',default=''); a.add_argument('--tier',default='quick'); a.add_argument('--dir',default='/verif/seeded'); a.add_argument('--seed',default='1'); a.add_argument('bugs',nargs='*'); a=a.parse_args()
M='/tmp/mx'; os.makedirs(M,exist_ok=True)
ALL=['C%02d'%i for i in range(1,len(open('/verif/properties.jsonl').read().splitlines())+1)]
bugs=a.bugs or sorted(os.listdir(a.dir))
q=queue.Queue()
for b in bugs: q.put(b)
res={}; lock=threading.Lock()
def worker(n):
    W='%s/w%d'%(M,n); shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    subprocess.run(['cp','-a','/repo',W+'/repo'],check=True)
    os.makedirs(W+'/verif'); subprocess.run("cd /verif && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C %s/verif"%W,shell=True,check=True)
    while True:
        try: b=q.get_nowait()
        except queue.Empty: break
        d=a.dir+'/'+b; own=json.load(open(d+'/meta.json'))['property']
        checks=[own] if a.own else (a.checks.split(',') if a.checks else ALL)
        subprocess.run('git checkout -q -- . && git apply %s/patch.diff'%d,shell=True,cwd=W+'/repo',check=True)
        r={}
        for c in checks:
            t=time.time()
            try:
                p=subprocess.run(['unshare','-m','bash','-c','mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ulimit -v 12000000; VERIF_SEED=%s VERIF_TIER=%s timeout 890 ./check.sh run %s %s'%(W,W,a.seed,a.tier,c,a.tier)],capture_output=True,text=True)
                v=[l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=%s '%c)]
                r[c]=[p.returncode,bool(v),round(time.time()-t,1)]
                if p.returncode not in (0,1): print(b,c,'EXIT',p.returncode,p.stderr[-400:],flush=True)
            except Exception as e: r[c]=[-1,False,str(e)]
        with lock:
            res[b]=r
            print(b,'own',own,'CAUGHT' if r.get(own,[0])[0]==1 and r[own][1] else 'MISSED' if own in r else '-', r.get(own,['','',''])[2], 'by',[c for c in r if r[c][0]==1],flush=True)
            f=M+'/matrix.json'; m=json.load(open(f)) if os.path.exists(f) else {}
            m.setdefault(b,{}).update(r); json.dump(m,open(f,'w'))
    shutil.rmtree(W)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(a.jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
