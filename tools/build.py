#!/usr/bin/env python3
"""Builds the simulator and the process images from /repo's current working tree."""
import os, re, sys, hashlib, subprocess, shutil, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('SIMGA_REPO','/repo'); B=os.environ.get('SIMGA_BUILD',V+'/build')
PORTS={'ts':('src-mpi','MPI_TS'),'pr':('src-mpi-pr','MPI_PR'),'mt':('src-mpi-mt','MPI_MT'),'pt':('src-mpi-pt','MPI_PT'),'mpi3':('src-mpi3','MPI3')}
NIMG=10
GA_DIRS={'global/src':None,'pario/dra':None,'pario/elio':['elio.c','stat.c'],'pario/eaf':['eaf.c','eaf_f2c.c'],'pario/sf':['shared.files.c','sf_capi.c','sf_fortran.c'],
 'ma':['table.c','string-util.c','ma.c','f2c.c','error.c'],'gaf2c':['gaf2c.c','drand.c'],'compat':['random.c'],'tcgmsg':['capi.c','fapi.c'],
 'tcgmsg/tcgmsg-mpi':None,'LinAlg/lapack+blas':['xgemm.c'],'gparrays/src':['gpbase.c','gponesided.c','gpcapi.c']}
GLOBAL_SRC='decomp capi collect onesided sparse sclstubs ga_symmetr global.periodic DP matrix ga_malloc fapi global.npatch global.nalg ghosts ga_diag_seqc thread-safe ga_trace elem_alg sketch iterator hsort.scat datatypes mtwister sparse.array base select matmul global.util ga_solve_seq nbutil peigstubs'.split()
DRA='patch.util fortran env disk.param disk.arrays capi buffers'.split()
TCG='sizeof pfilecopy pbeginf p2p nxtval-armci niceftn misc llog evon evlog drand48 collect clustercheck checkbyte'.split()
def ga_sources():
    s=[]
    for d,l in GA_DIRS.items():
        if d=='global/src': l=[x+'.c' for x in GLOBAL_SRC]
        elif d=='pario/dra': l=[x+'.c' for x in DRA]
        elif d=='tcgmsg/tcgmsg-mpi': l=[x+'.c' for x in TCG]
        s+=[d+'/'+x for x in l]
    return s
def f_sources():
    return sorted(os.path.relpath(x,REPO) for x in glob.glob(REPO+'/LinAlg/lapack+blas/gal_*.f'))+['global/src/complex.F','global/src/ga_diag_seq.F','ma/maf.F','gaf2c/farg.F']
def sh(cmd):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: raise RuntimeError('%s\n%s'%(' '.join(cmd),p.stdout[-6000:]))
def read(f): return open(f,'rb').read()
def build(ports=None,fine=False,quiet=True):
    os.makedirs(B,exist_ok=True)
    lock=open(B+'/.lock','w'); fcntl.flock(lock,fcntl.LOCK_EX)
    ports=ports or list(PORTS)
    gen=B+'/gen'; G=V+'/sim/gen/ga'
    # headers generated by the repository's own build rules
    wd=gen+'/global/src'; os.makedirs(wd,exist_ok=True); os.makedirs(gen+'/gp',exist_ok=True)
    def put(f,s):
        if not os.path.exists(f) or open(f).read()!=s: open(f,'w').write(s)
    def wapi(src,pre,hw,hd):
        L=open(src,errors='replace').read().split('\n')
        w=[x.replace('PAPI','WAPI').replace('p%s_'%pre,'w%s_'%pre) for x in L]; w=[x for x in w if 'typedef' not in x]
        put(hw,'\n'.join(w))
        d=[]
        for x in L:
            x=x.replace('PAPI','WAPIDEFS'); y=re.sub(r'^.*p(%s_.*)\(.*$'%pre,r'#define w\1 p\1',x)
            if y.startswith(' ') or y.startswith('/*') or 'typedef' in y: continue
            d.append(y)
        put(hd,'\n'.join(d))
    wapi(REPO+'/global/src/ga-papi.h','nga',wd+'/ga-wapi.h',wd+'/ga-wapidefs.h')
    wapi(REPO+'/gparrays/src/gp-papi.h','gp',gen+'/gp/gp-wapi.h',gen+'/gp/gp-wapidefs.h')
    ci=open(V+'/sim/gen/comex/config.h.in').read()
    for p,(d,n) in PORTS.items():
        os.makedirs(gen+'/comex-'+p,exist_ok=True)
        c=re.sub(r'(#define COMEX_NETWORK_MPI_TS) 1',r'\1 0',ci); c2=re.sub(r'(#define COMEX_NETWORK_%s) 0'%n,r'\1 1',c)
        assert c2!=c,p; put(gen+'/comex-'+p+'/config.h',c2)
    inc=['-I'+V+'/sim','-I'+G,'-I'+REPO,'-I'+G+'/ma','-I'+REPO+'/ma','-I'+REPO+'/LinAlg/lapack+blas','-I'+wd,'-I'+gen+'/gp','-I'+G+'/global/src','-I'+REPO+'/global/src']
    inc+=['-I'+REPO+'/'+x for x in ('pario/dra','pario/eaf','pario/elio','pario/sf')]+['-I'+G+'/gaf2c']+['-I'+REPO+'/'+x for x in ('gaf2c','tcgmsg','tcgmsg/tcgmsg-mpi','comex/src-armci','comex/src-common','gparrays/src')]
    base=['-DHAVE_CONFIG_H','-Dpthread_create=sim_pthread_create','-w','-fPIC','-O1','-U_FORTIFY_SOURCE','-std=gnu17']
    cov=os.environ.get('SIMGA_COV')
    if cov: base=base+['-g','-fsanitize-coverage=trace-pc']
    tsan=['-fsanitize=thread','--param','tsan-instrument-func-entry-exit=0']
    hdr=hashlib.sha256()
    hs=[]
    for d in ('global','ma','gaf2c','pario','tcgmsg','comex','gparrays','LinAlg','compat','armci'):
        for r,_,fs in os.walk(REPO+'/'+d):
            if any(x in r for x in ('/testing','/_build','/examples')): continue
            hs+=[r+'/'+f for f in fs if f.endswith(('.h','.fh','.inc','.th'))]
    for r,_,fs in list(os.walk(V+'/sim'))+list(os.walk(gen)): hs+=[r+'/'+f for f in fs if f.endswith(('.h','.fh'))]
    for h in sorted(hs): hdr.update(h.encode()); hdr.update(read(h))
    hdr=hdr.digest()
    od=B+'/obj'; os.makedirs(od,exist_ok=True); jobs=[]; used=set()
    def obj(cc,flags,src,deps=b''):
        k=hashlib.sha256(hdr+repr((cc,flags,src)).encode()+deps+read(src)).hexdigest()[:24]; o=od+'/'+os.path.basename(src)+'-'+k+'.o'
        used.add(o)
        if not os.path.exists(o): jobs.append((os.path.getsize(src),cc+flags+['-c',src,'-o',o+'.tmp'],o))
        return o
    # C files that #include other .c files
    cinc=b''.join(read(f) for f in sorted(glob.glob(REPO+'/global/src/*.c')) if False)
    small=lambda s:['-include',V+'/sim/ga_small.h'] if s.startswith('global/src/') else []
    ga=[obj(['gcc'],base+inc+small(s),REPO+'/'+s) for s in ga_sources()]
    fo=[obj(['gfortran'],['-fdefault-integer-8','-fallow-argument-mismatch','-fPIC','-O1','-w','-cpp','-DHAVE_CONFIG_H']+inc,REPO+'/'+s) for s in f_sources()]
    wl=[obj(['g++'],['-w','-fPIC','-O1','-std=gnu++17','-fno-gnu-unique']+inc,f,b''.join(read(h) for h in sorted(glob.glob(V+'/wl/*.h')))) for f in sorted(glob.glob(V+'/wl/*.cc'))]
    img={}
    for p in ports:
        d=PORTS[p][0]; srcs=sorted(x for x in glob.glob(REPO+'/comex/'+d+'/*.c') if os.path.basename(x)!='hello.c')
        fl=base+['-I'+gen+'/comex-'+p,'-I'+V+'/sim','-I'+REPO+'/comex/'+d,'-I'+REPO+'/comex/src-common','-I'+REPO+'/comex/src-armci']
        arm=[obj(['gcc'],fl,REPO+'/comex/src-armci/%s.c'%x) for x in ('message','iterator','groups','capi','armci')]
        if p in('pr','pt','mt'): fl=fl+tsan+['-Dmemcpy=sim_memcpy']
        img[p]=arm+ga+fo+wl+[obj(['gcc'],fl,s) for s in srcs]
    if fine:
        gt=[obj(['gcc'],base+inc+small(s)+tsan,REPO+'/'+s) for s in ga_sources()]
        img['fine']=gt+fo+wl+[o for o in img['pt'] if o not in set(ga+fo+wl)]
    sim=[obj(['g++'],['-std=gnu++17','-O2','-g','-w'],V+'/sim/'+f) for f in ('core.cc','os.cc','simmpi.cc','main.cc')]
    jobs.sort(key=lambda j:-j[0])
    def run(j):
        sh(j[1]); os.rename(j[2]+'.tmp',j[2])
    with ThreadPoolExecutor(8) as ex: list(ex.map(run,jobs))
    tag=hashlib.sha256(repr((sorted(img.items()),sim,NIMG)).encode()).hexdigest()[:16]; out=B+'/img-'+tag
    if not os.path.exists(out+'/ok'):
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        wraps=sorted(set(re.findall(r'\b__wrap_(\w+)\(',open(V+'/sim/os.cc').read()))); wf=['-Wl,--wrap='+w for w in wraps]
        def link(t):
            p,objs=t; f=out+'/'+p+'.0.so'
            sh(['g++','-shared','-Wl,-Bsymbolic','-Wl,-z,lazy','-o',f]+objs+wf+['-lgfortran','-lm']); (None if cov else sh(['strip','-g',f]))
            n=NIMG if p!='fine' else 4
            for i in range(1,n): shutil.copyfile(f,out+'/%s.%d.so'%(p,i))
        with ThreadPoolExecutor(8) as ex: list(ex.map(link,list(img.items())))
        sh(['g++','-rdynamic','-o',out+'/simga']+sim+['-ldl','-lm'])
        open(out+'/ok','w').write('')
    os.utime(out+'/ok')
    # keep the cache small
    imgs=sorted(glob.glob(B+'/img-*'),key=lambda d:os.path.getmtime(d+'/ok') if os.path.exists(d+'/ok') else 0)
    for d in imgs[:-3]: shutil.rmtree(d,ignore_errors=True)
    objs=sorted(glob.glob(od+'/*.o'),key=os.path.getmtime)
    if len(objs)>3000:
        for o in objs[:-2500]:
            if o not in used: os.unlink(o)
    for o in used:
        try: os.utime(o)
        except OSError: pass
    return out
if __name__=='__main__':
    t=time.time(); a=sys.argv[1:]; out=build(fine='pt' if 'fine' in a else False); print(out,'%.1fs'%(time.time()-t))
