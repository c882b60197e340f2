#!/usr/bin/env python3
"""check.py <property>            run the check of a property (VERIF_SEED, VERIF_TIER)
   check.py replay FILE [-v]      replay a recorded failing execution
   check.py setup                 build the simulator and the process images
   check.py determinism N         run N seeds of every workload twice and compare"""
import sys,os,json,time,subprocess
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+'/tools')
os.chdir(V)
import build,table
KF=V+'/known_findings.jsonl'
REAL=['global/src (all C, and the Fortran helpers)','comex runtimes mpi-ts, mpi-pr, mpi-mt, mpi-pt, mpi3','comex/src-armci','ma','pario/dra, eaf, sf, elio','tcgmsg-mpi','gparrays','LinAlg (bundled BLAS/LAPACK)']
STUB=['MPI library (simulated: matching, collectives, RMA, groups, datatypes)','processes (one private copy of the library image per simulated process, scheduled as coroutines)','threads, semaphores, mutexes, shared memory, clocks, environment','file system and asynchronous I/O']
def tier(): return os.environ.get('VERIF_TIER','quick')
def main():
    a=sys.argv[1:]
    if not a: print(__doc__); return 3
    if a[0]=='setup':
        print(build.build(fine=True)); return 0
    if a[0]=='replay':
        img=build.build(fine=True); 
        return subprocess.call([img+'/simga','replay',os.path.abspath(a[1]),'--images='+img]+(['--v=2'] if '-v' in a else []))
    if a[0]=='determinism':
        img=build.build(fine=True); n=a[1] if len(a)>1 else '40'; bad=0
        for prop,c in table.CHECKS.items():
            r=subprocess.run([img+'/simga','search','--images='+img,'--prop='+prop,'--targets='+c['targets'],'--runs='+n,'--budget=600','--known='+KF,'--list','--redet=1'],stdout=subprocess.PIPE,text=True); print(r.stdout.splitlines()[-1]); bad|=r.returncode
        return bad
    prop=a[0]; c=table.CHECKS[prop]; t0=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1); t=tier()
    budget=float(os.environ.get('SIMGA_BUDGET',0)) or (c['quick'] if t=='quick' else c.get('thorough',900))
    try: img=build.build(fine=c.get('fine',False))
    except RuntimeError as e: print('build failed:',e); return 3
    os.makedirs(V+'/evidence',exist_ok=True); out=V+'/build/replays'; os.makedirs(out,exist_ok=True); frag=V+'/build/frag-%s-%d.json'%(prop,os.getpid())
    cmd=[img+'/simga','search','--images='+img,'--prop='+prop,'--targets='+c['targets'],'--seed=%d'%seed,'--budget=%g'%budget,'--out='+out,'--known='+KF,'--evidence='+frag,'--minbudget=%d'%(20 if t=='quick' else 120),'--minruns=20']+c.get('args',[])
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); print(p.stdout,end=''); rc=p.returncode
    if rc not in(0,1): 
        print('check ended with an error (%d)'%rc); 
        if not os.path.exists(frag): return 3
    f=json.load(open(frag)); os.unlink(frag); w=max(f['search_wall'],1e-3); cn=f['counters']
    faults={k[6:]:v for k,v in cn.items() if k.startswith('fault:')}; runs={k[5:]:v for k,v in cn.items() if k.startswith('runs:')}
    ev=dict(property=prop,tier=t,seed=seed,level='exploration',wall_s=round(time.time()-t0,2),violations=f['violations'],
     coverage=dict(evaluations=f['runs'],distinct_nontrivial=f['distinct'],
      rule='one evaluation = one simulated execution generated from (seed, property, run index): %s; two executions are distinct when the hash of their sequence of context switches, message deliveries and observable events differs; every counted run boots the library on 2-10 simulated processes and runs its program to the end or to a violation'%c['what'],
      samples=f['samples'],simulated_runs=f['runs'],seeds_per_hour=round(f['runs']/w*3600),simulated_seconds=f['simtime_ns']/1e9,scheduler_steps=f['steps'],context_switches=f['switches'],random_decisions=f['decisions'],faults_injected=f['faults'],fault_kinds=faults,
      runs_per_workload=runs,runs_per_runtime=f['ports'],other_counters={k:v for k,v in cn.items() if not k.startswith(('fault:','runs:'))},determinism_reruns=f['determinism_reruns'],determinism_mismatches=f['determinism_mismatches'],simulator_errors=f['simerrors'],known_finding_hits=f['known_hits'],
      distinct_measure='64-bit hash over the schedule (order of task switches and deliveries) and event trace',ran_real_code=REAL,ran_as_stub=STUB),
     assumptions=['MPI behaves as its standard says (the simulated MPI chooses among the behaviours the standard permits)','weak memory reorderings of the hardware are not simulated: interleavings are sequentially consistent, at library-call and (inside the runtimes) memory-access granularity']+c.get('assumptions',[]))
    tmp=V+'/evidence/.%s.%d'%(prop,os.getpid()); json.dump(ev,open(tmp,'w'),indent=1); os.rename(tmp,V+'/evidence/%s.json'%prop)
    return rc
sys.exit(main())
