#!/usr/bin/env python3
"""Writes known_findings.jsonl: open findings (with a replay file) and the record of repaired defects."""
import json,os,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN=[
 dict(id='C21-remote-elements-%s'%p,property='C21',status='open',match=r'^gpfar\|%s\|(abort|crash|wrong-value)\|'%p,replay='/verif/findings/C21-far-%s.replay'%p,
  what='GP_Get of an element held by another process fails on %s: memory from GP_Malloc is only registered by the process that allocated it'%{'pr':'mpi-pr','pt':'mpi-pt','mpi3':'mpi3'}[p]) for p in ('pr','pt','mpi3')]
FIXED={'7a6a574':'C11','af900b5':'C10','45a6016':'C02','0db3fd8':'C05','4b000cc':'C05','3d7fa1a':'C04','8e5e47b':'C05','f98b8ab':'C01','254563e':'C01','ab78323':'C10','7f22b7b':'C05','e0fa91e':'C12','2f570ba':'C08','f18854f':'C08','cbaf312':'C10','d49a0a8':'C04','773f941':'C04','0378561':'C06','4e821cd':'C06','e0fc7cf':'C06','29f200a':'C07','05cf784':'C08','c8e8380':'C08','87b8bd8':'C08','34d0b0d':'C09','9f835d4':'C11','27e836c':'C20','744e456':'C13','02d368a':'C14','b31419a':'C18','cceda8f':'C05','05beb70':'C17','4de501f':'C24','b57ae16':'C16','792d501':'C15','5757aaa':'C25','a420ac7':'C21','d3b6828':'C20','cb44291':'C22','76c0d1c':'C10','1d14f04':'C12','1b298d2':'C10','1eda167':'C26','d208043':'C28','7f21894':'C28','cc0cb38':'C16','be1c223':'C16','7623501':'C11'}
EXTRA=json.load(open(V+'/tools/fixed_extra.json')) if os.path.exists(V+'/tools/fixed_extra.json') else {}
FIXED.update(EXTRA)
if __name__=='__main__':
    repo=sys.argv[1] if len(sys.argv)>1 else '/repo'
    o=[json.dumps(x) for x in OPEN]
    for h,p in FIXED.items():
        s=subprocess.check_output(['git','-C',repo,'log','-1','--format=%s',h],text=True).strip(); assert s.startswith('fix: ')
        o.append(json.dumps(dict(id='fixed-'+h,property=p,status='fixed',entry='fixed: property=%s %s %s'%(p,h,s[5:]))))
    open(V+'/known_findings.jsonl','w').write('\n'.join(o)+'\n')
