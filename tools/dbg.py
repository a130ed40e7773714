import sys,os,json
sys.path.insert(0,'/verif')
from sim import boot, world, build, index, families, checks, wire
world.preload(6)
if os.environ.get('LOG'):
    import logging
    class LH(logging.Handler):
        def emit(self, r):
            from sim.boot import clock
            sys.stderr.write(f'{clock.mono:.4f} {r.levelname} {r.name} {r.getMessage()[:250]}\n')
    LOGH=LH()
fam,seed,prop=sys.argv[1],int(sys.argv[2]),sys.argv[3]
lo,hi=(float(x) for x in sys.argv[4].split(':')) if len(sys.argv)>4 else (0,1e9)
plan=families.make(fam,seed) if not fam.endswith('.json') else json.load(open(fam))
P=sys.stdout
sys.stdout=open(os.devnull,'w')
if os.environ.get('LOG'):
    logging.disable(0); logging.getLogger('openleadr').addHandler(LOGH); logging.getLogger('openleadr').setLevel(20); logging.getLogger('asyncio').addHandler(LOGH)
w=build.run(plan)
sys.stdout=P
run=index.Run(w)
for f in checks.CHECKS[prop][0]: f(run)
for v in run.out: print(v)
if os.environ.get('PLAN'): print(json.dumps(plan))
ev=[]
for e in w.hist:
    if e['k'] in('req','rep','req_dlv','rep_dlv'): continue
    ev.append((e['s'],e['t'],'   '+e['k']+' '+str({k:v for k,v in e.items() if k not in('s','t','k','spec')})))
for x in w.exchanges:
    m=wire.parse(x['body']); 
    d={k:v for k,v in m.items() if k in('ven_id','request_id','responses','code','resp_request_id','registration_id','pending')}
    if m.reports: d['rep']=[(r.specifier,r.request_id,len(r.intervals)) for r in m.reports]
    ev.append((x['s_sent'],x['t_sent'],f"> {x['id']} {x['srcinc']} {x['type']} {d}"))
    if x['s_dlv'] is not None: ev.append((x['s_dlv'],x['t_dlv'],f". {x['id']} at {x['dstinc']}"))
    if x['s_rep'] is not None:
        r=wire.parse(x['rbody']) if x['rbody'] else wire.Msg()
        d={k:v for k,v in r.items() if k in('ven_id','request_id','code','resp_request_id','registration_id','requests','cancel')}
        if r.events: d['ev']=[(e.id,e.mod,e.status,round(e.start-run.epoch,2),e.duration,e.rr) for e in r.events]
        ev.append((x['s_rep'],x['t_rep'],f"< {x['id']} {x['status']} {x['rtype']} {d}"))
    if x['s_rdlv'] is not None: ev.append((x['s_rdlv'],x['t_rdlv'],f"* {x['id']} back at {x['srcinc']} {x.get('rfate')}"))
    else: ev.append((x['s_sent']+.5,x['t_sent'],f"! {x['id']} never answered fate={x.get('fate')} {x.get('rfate')}"))
for s,t,l in sorted(ev,key=lambda a:a[0]):
    if lo<=t<=hi: print(f'{s:5} {t:10.4f} {l[:330]}')
