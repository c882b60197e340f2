#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
import table
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m=dict(version=1,setup_cmd='python3 check.py setup',hooks=dict(guard='SIMGA (no hook was needed: the simulator is linked in place of MPI, pthread, libc I/O and memory-access instrumentation)',enable='python3 tools/build.py compiles the unmodified sources against the simulated mpi.h with -Wl,--wrap seams',source_commits=[]),checks=[],not_applicable=[])
for p in props:
    if p in table.CHECKS:
        c=table.CHECKS[p]
        m['checks'].append(dict(property=p,quick_cmd='python3 check.py '+p,thorough_cmd='VERIF_TIER=thorough python3 check.py '+p,evidence_file='evidence/%s.json'%p,technique='deterministic simulation with fault injection: '+c.get('tech','seeded schedule and fault search, model-based oracle'),level='exploration',level_note=c.get('note','Seeded search over schedules, faults and programs against a serial model; finds violations with high probability but proves nothing. Trusts the simulated MPI, scheduler and storage.')))
    else: m['not_applicable'].append(dict(property=p,reason=table.NA.get(p,'not yet claimed: its check is still being built')))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks',len(m['not_applicable']),'not applicable')
