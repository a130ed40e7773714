import sys,os,time,collections,traceback
sys.path.insert(0,'/verif')
from sim import boot, world, build, index, families, checks
import json
rt=boot.real_perf_counter
world.preload(8)
fams=sys.argv[1].split(','); a,b=map(int,sys.argv[2].split(':')); props=sys.argv[3].split(',') if len(sys.argv)>3 else list(checks.CHECKS)
out=sys.stdout
def one(fam,seed):
    plan=families.make(fam,seed)
    t=rt(); w=build.run(plan); t1=rt()
    run=index.Run(w)
    res=[]
    for p in props:
        fns,fm=checks.CHECKS[p]
        if fam not in fm: continue
        n0=len(run.out)
        for f in fns:
            f(run)
        res+= [v for v in run.out[n0:] if v['property']==p and not run.borderline]
    return w,run,res,t1-t,rt()-t1
from concurrent.futures import ProcessPoolExecutor
tot=collections.Counter(); viol=[]
jobs=[(f,s) for f in fams for s in range(a,b)]
# fork one process per run, 8 at once
import multiprocessing as mp
import pickle
running={}
def child(job,wfd):
    try:
        sys.stdout=open(os.devnull,'w')
        w,run,res,t,to=one(*job)
        r=(job,dict(run.counts),res[:6],t,to,w.step_limit_hit,dict(w.faults),[e for e in w.hist if e['k'] in('boot_error','loop_error')][:2])
    except BaseException as e:
        r=(job,None,traceback.format_exc(),0,0,0,{},[])
    os.write(wfd,pickle.dumps(r)) if len(pickle.dumps(r))<60000 else os.write(wfd,pickle.dumps((job,None,'too big',0,0,0,{},[])))
    os._exit(0)
i=0; T=O=0; faults=collections.Counter(); errs=[]
t0=rt()
while i<len(jobs) or running:
    while i<len(jobs) and len(running)<8:
        rfd,wfd=os.pipe(); pid=os.fork()
        if pid==0: os.close(rfd); child(jobs[i],wfd)
        os.close(wfd); running[pid]=rfd; i+=1
    pid,st=os.wait()
    data=b''
    rfd=running.pop(pid)
    while True:
        c=os.read(rfd,65536)
        if not c: break
        data+=c
    os.close(rfd)
    if not data: errs.append(('died',st)); continue
    job,counts,res,t,to,lim,fl,er=pickle.loads(data)
    if counts is None: errs.append((job,res)); continue
    tot.update(counts); T+=t; O+=to; faults.update(fl)
    if lim: errs.append((job,'limit'))
    if er: errs.append((job,er))
    for v in res: viol.append((job,v))
print('wall',rt()-t0,'runs',len(jobs),'cpu',T,'oracle',O)
print(dict(tot)); print(dict(faults))
for e in errs[:int(os.environ.get('NE','4'))]: print('ERR',e[0],e[1] if not isinstance(e[1],str) else e[1][-1500:])
print(len(errs),'errs',len(viol),'violations')
c=collections.Counter((v['property'],job[0]) for job,v in viol); print(c)
seen=collections.Counter()
for job,v in viol:
    k=(v['property'],__import__('re').sub(r"'.*?'",'',v['what'])[:int(os.environ.get('NK','25'))]); seen[k]+=1
    if seen[k]<=int(os.environ.get('NV','2')): print(job,v)
