#!/usr/bin/env python3
"""Writes wl/ga64.h: every call of a listed interface in the workloads is randomly replaced by its 64-bit variant."""
import re,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo=sys.argv[1] if len(sys.argv)>1 else '/repo'
src=re.sub(r'/\*.*?\*/','',open(repo+'/global/src/ga.h').read(),flags=re.S)
protos={}
for m in re.finditer(r'extern\s+([\w\s]+?[\s\*]+)(\w+)\s*\(([^;]*?)\)\s*;',src): protos[m.group(2)]=(m.group(1).strip(),[' '.join(x.split()) for x in m.group(3).split(',')])
names='''GA_Abs_value_patch GA_Add_constant_patch GA_Cgemm GA_Dgemm GA_Sgemm GA_Zgemm GA_Elem_divide_patch GA_Elem_maximum_patch GA_Elem_minimum_patch GA_Elem_multiply_patch GA_Matmul_patch GA_Median_patch
GA_Pack GA_Unpack GA_Patch_enum GA_Recip_patch GA_Scan_add GA_Scan_copy GA_Step_max_patch NGA_Acc NGA_Access NGA_Access_block NGA_Access_block_grid NGA_Access_ghost_element NGA_Access_ghosts NGA_Add_patch
NGA_Cdot_patch NGA_Copy_patch NGA_Create NGA_Create_config NGA_Create_ghosts NGA_Ddot_patch NGA_Distribution NGA_Fdot_patch NGA_Fill_patch NGA_Gather NGA_Gather_flat NGA_Get NGA_Get_ghost_block NGA_Idot_patch NGA_Inquire
NGA_Ldot_patch NGA_Lldot_patch NGA_Locate NGA_Locate_nnodes NGA_Locate_region NGA_Matmul_patch NGA_NbAcc NGA_NbGet NGA_NbPut NGA_Periodic_acc NGA_Periodic_get NGA_Periodic_put NGA_Put NGA_Read_inc NGA_Release NGA_Release_ghost_element
NGA_Release_update NGA_Release_update_ghost_element NGA_Scale_patch NGA_Scatter NGA_Scatter_flat NGA_Scatter_acc NGA_Scatter_acc_flat NGA_Select_elem NGA_Strided_acc NGA_Strided_get NGA_Strided_put NGA_Zdot_patch NGA_Zero_patch'''.split()
OUT={('NGA_Access','ld'),('NGA_Access_block','ld'),('NGA_Access_block_grid','ld'),('NGA_Access_ghost_element','ld'),('NGA_Access_ghosts','dims'),('NGA_Access_ghosts','ld'),('NGA_Distribution','lo'),('NGA_Distribution','hi'),('NGA_Inquire','dims'),('NGA_Select_elem','index'),('GA_Pack','icount'),('GA_Unpack','icount')}
def parse(p):
    m=re.match(r'^(.*?)(\w+)\s*((?:\[\w*\])*)$',p); t,n,b=m.groups(); return t.strip()+'*'*b.count('['),n
o=['// Generated by tools/gen64.py: a random part of the calls goes through the 64-bit variants.','#ifndef GA64_H','#define GA64_H','static int v64_pct=0; static uint64_t v64_ctr=0;','static inline bool v64(){ if(!v64_pct) return false; Rng q(++v64_ctr*77); return (int)q.below(100)<v64_pct; }',
'struct V64 { std::vector<int64_t> v; int*out=nullptr; V64(const int*p,long n){ if(p&&n>0) v.assign(p,p+n); else v.assign(n>0?n:1,0); null=!p; } bool null; operator int64_t*(){ return null?nullptr:v.data(); } };',
'struct O64 { std::vector<int64_t> v; int*out; long n; O64(int*p,long k):v(k>0?k:1,0x5555555555555555ll),out(p),n(k){ } operator int64_t*(){ return v.data(); } void back(){ for(long i=0;i<n;i++) out[i]=(int)v[i]; } };']
done=[]
for f in names:
    if f=='NGA_Locate_region':
        o.append('static inline int v64_NGA_Locate_region(int g,int lo[],int hi[],int map[],int procs[]){ if(!v64()) return NGA_Locate_region(g,lo,hi,map,procs); long nd=GA_Ndim(g); V64 l(lo,nd),h(hi,nd); int n=NGA_Locate_nnodes64(g,l,h); std::vector<int64_t> m(2*nd*(n+1),0); int k=NGA_Locate_region64(g,l,h,m.data(),procs); for(long i=0;i<2*nd*k;i++) map[i]=(int)m[i]; return k; }'); done.append(f); continue
    if f not in protos or f+'64' not in protos: print('missing',f); continue
    r,ps=protos[f]; r6,p6=protos[f+'64']; ps=[parse(x) for x in ps]; p6=[parse(x) for x in p6]; assert len(ps)==len(p6),f
    r=re.sub(r'\s+',' ',r); pre=[]; args=[]; post=[]; g=None; nd='nd'; hdr=''; 
    for k,((t,n),(t6,n6)) in enumerate(zip(ps,p6)):
        nm='a%d'%k
        if n.startswith('g_') or n=='g': g=nm; 
        if n=='ndim' and t=='int': g=None; ndexpr=nm
        else: ndexpr='GA_Ndim(%s)'%g if g else None
        if t6.replace(' ','')==t.replace(' ',''): args.append(nm); continue
        if '*' not in t6: args.append(nm); continue
        if f.startswith('NGA_Create'): ndexpr='a1'
        if f=='NGA_Inquire': ndexpr='GA_Ndim(a0)'
        ln=ndexpr+('-1' if n=='ld' else '')
        if n=='icount': ln='1'
        if n=='subsArray':
            if 'flat' in f: ln='(long)a%d*%s'%(k+1,ndexpr); pre.append('V64 c%d(%s,%s);'%(k,nm,ln)); args.append('c%d'%k); continue
            pre.append('long w=%s; std::vector<int64_t> fl(a%d*w+1); std::vector<int64_t*> sp; for(long i=0;i<a%d;i++){ for(long j=0;j<w;j++) fl[i*w+j]=%s[i][j]; sp.push_back(&fl[i*w]); }'%(ndexpr,k+1,k+1,nm)); args.append('sp.data()'); continue
        if (f,n) in OUT: pre.append('O64 c%d(%s,%s);'%(k,nm,ln)); post.append('c%d.back();'%k)
        else: pre.append('V64 c%d(%s,%s);'%(k,nm,ln))
        args.append('c%d'%k)
    sig=','.join('%s a%d'%(t if '(' not in t else t,k) for k,(t,n) in enumerate(ps)); call=','.join('a%d'%k for k in range(len(ps)))
    if r=='void': body='if(!v64()){ %s(%s); return; } %s %s64(%s); %s'%(f,call,' '.join(pre),f,','.join(args),' '.join(post))
    else: body='if(!v64()) return %s(%s); %s auto rv=%s64(%s); %s return rv;'%(f,call,' '.join(pre),f,','.join(args),' '.join(post))
    o.append('static inline %s v64_%s(%s){ %s }'%(r,f,sig,body)); done.append(f)
# two-dimensional element lists also go through the entry points behind the Fortran interface
for f,q,al in (('NGA_Gather','pnga_gather2d',''),('NGA_Scatter','pnga_scatter2d',''),('NGA_Scatter_acc','pnga_scatter_acc2d',',a4')):
    i=[k for k,l in enumerate(o) if l.startswith('static inline void v64_%s('%f)][0]
    o[i]=o[i].replace('return; } ','return; } if(v64_2d&&(v64_ctr&1)&&GA_Ndim(a0)==2){ std::vector<long> q1(a3+1),q2(a3+1); for(int k=0;k<a3;k++){ q1[k]=a2[k][1]+1; q2[k]=a2[k][0]+1; } %s(a0,a1,q1.data(),q2.data(),a3%s); return; } '%(q,al),1)
o.insert(1+[k for k,l in enumerate(o) if l.startswith('static inline bool v64(')][0],'static bool v64_2d=false; extern "C" { void pnga_gather2d(long,void*,long*,long*,long); void pnga_scatter2d(long,void*,long*,long*,long); void pnga_scatter_acc2d(long,void*,long*,long*,long,void*); }')
for f in done: o.append('#define %s v64_%s'%(f,f))
o.append('#endif'); open(V+'/wl/ga64.h','w').write('\n'.join(o)+'\n'); print(len(done))
