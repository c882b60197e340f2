// C17: disk resident arrays. All processes run the same random sequence of creations, section writes and reads (with
// transposition), waits, probes, closes, reopenings and deletions, several requests in flight, over every number of files
// and I/O processes, on the simulated file system; a copy of every disk array's contents in memory decides each read.
#include "coll.h"
extern "C" {
#include "dra.h"
int NDRA_Create_config(int type,int ndim,dra_size_t dims[],char*name,char*filename,int mode,dra_size_t reqdims[],int numfiles,int ioprocs,int*d_a);
}
enum { R_CREATE,R_WRITE,R_WSECT,R_READ,R_RSECT,R_WAIT,R_PROBE,R_FLICK,R_INQ,R_CLOSE,R_OPEN,R_DELETE,R_RESTART,R_STALL,R_N };
enum { NDR=4 };
struct DA { bool exists=false,open=false; int h=0,mode=-1,type=0,nd=1,dims[4]; std::string name,file; std::vector<Val> v; std::vector<char> known; long size()const{ long n=1; for(int i=0;i<nd;i++) n*=dims[i]; return n; } };
struct DReq { int id,slot; bool rd; GArr ga; Reg dr; std::vector<Val> wantv; std::vector<char> wantk; };
static const int dtypes[]={T_DBL,T_INT,T_LONG,T_DC,T_FLT,T_SC};
static void gen(Program&p,Rng&r){ gen_base(p,r,1,6); p.set("ma.stack",400000); p.set("ma.heap",100000);
  if(p.get("port")!=P_PR&&p.get("np")>3&&r.chance(0.2)){ long m=0; int nn=1,np=(int)p.get("np"); for(int i=1;i<np;i++) if(r.chance(0.35)){ m|=1L<<i; nn++; } if(m){ p.set("nodemap",m); p.set("nodes",nn); p.set("cyclic",0); } }
  if(p.get("port")!=P_PR&&p.get("np")>2&&!p.get("nodemap",0)&&r.chance(0.35)){ p.set("nodes",r.range(2,std::min(3L,p.get("np")))); p.set("cyclic",r.chance(0.2)&&p.get("np")%p.get("nodes")==0); }
  bool errs=r.chance(0.15); if(r.chance(0.6)||errs){ p.set("sim.io_short",r.pick({0,500,2500,6000})); p.set("sim.io_eintr",r.pick({0,300,2000})); if(errs){ p.set("sim.io_err",r.pick({20,100,500})); if(r.chance(0.3)) p.set("sim.io_seek",50); if(r.chance(0.3)) p.set("sim.io_open",200); } }
  int n=(int)r.range(4,r.chance(0.25)?40:16); int ns=(int)r.range(1,NDR); long sz=r.chance(0.04)?150000:r.pick({40,300,1500,1500});
  if(sz>10000){ n=std::min(n,6); if(p.get("port")==P_TS) sz=15000; }
  for(int i=0;i<n;i++){ Op o; int w=(int)r.below(100); o.kind=i==0?R_CREATE:w<12?R_CREATE:w<20?R_WRITE:w<42?R_WSECT:w<50?R_READ:w<70?R_RSECT:w<77?R_WAIT:w<81?R_PROBE:w<83?R_FLICK:w<86?R_INQ:w<91?R_CLOSE:w<94?R_OPEN:w<97?R_DELETE:w<99?R_STALL:R_RESTART; o.a={r.below(ns),(long)(r.next()>>30),sz}; p.ops.push_back(o); } }
#define RCC (sim_io_faults_all()?"abort":"wrong-result")
static void run(Program&p){ boot(p); int np=GA_Nnodes(),me=GA_Nodeid(); DA D[NDR]; std::vector<DReq> Q; int maxa=NDR+(int)(p.get("np")%3); if(DRA_Init(p.get("x.drainit",maxa),1e8,1e9,1e8)) sim_fail(RCC,"DRA_Init failed"); sim_fs_arm(1); sim_abort_after_io_error_ok(1); uint64_t uniq=1;
  auto compare=[&](DReq&q,bool sync){ DA&d=D[q.slot]; // q.ga.v holds the values expected in the global array (-1 known flag in wantk)
    GArr&a=q.ga; int nd=a.s.nd,es=tsize(a.s.type); if(sync) GA_Sync(); else sim_count("reads used right after DRA_Wait",1); int lo[4],hi[4],ld[4]; long n0=a.s.dims[0]; bool whole=(d.size()+me)%2; for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=a.s.dims[i]-1; } if(!whole){ lo[0]=(int)(n0*me/np); hi[0]=(int)(n0*(me+1)/np)-1; } if(hi[0]<lo[0]){ GA_Sync(); return; }
    Patch pt=mk_patch(nd,lo,hi,nullptr); for(int i=0;i<nd-1;i++) ld[i]=pt.ld[i]; char*b=(char*)sim_buf(pt.span*es); NGA_Get(a.g,lo,hi,b,ld); long bad=0;
    for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int i=0;i<nd;i++) id[i]=rel[i]+lo[i]; long e=a.s.lin(id); if(!q.wantk[e]) continue; Val g=dec(a.s.type,b+k*es); if(g!=q.wantv[e]){ char ix[64]; int o=0; for(int i=0;i<nd;i++) o+=snprintf(ix+o,64-o,"%s%d",i?",":"",id[i]); sim_fail("wrong-value","after reading disk array %s: element [%s] of the %s %s array is (%ld,%ld), expected (%ld,%ld)",d.file.c_str(),ix,tname(a.s.type),dname(a.s.dist),g.re,g.im,q.wantv[e].re,q.wantv[e].im); } bad++; }
    sim_count("elements compared",bad); sim_buf_free(b); GA_Sync(); };
  auto done=[&](size_t k,bool sync){ DReq q=Q[k]; Q.erase(Q.begin()+k); if(q.rd) compare(q,sync); GA_Destroy(q.ga.g); };
  auto waitk=[&](size_t k){ int rc=DRA_Wait(Q[k].id); if(rc) sim_fail(RCC,"DRA_Wait returned %d",rc); done(k,uniq%3==0); };
  auto flush=[&](int s){ for(size_t k=Q.size();k-->0;) if(s<0||Q[k].slot==s) waitk(k); };
  auto inter=[&](const Reg&a,const Reg&b,int nd){ for(int i=0;i<nd;i++) if(a.hi[i]<b.lo[i]||b.hi[i]<a.lo[i]) return false; return true; };
  auto settype=[&](DA&d){ return ctype(d.type); };
  for(auto&o:p.ops){ if(o.a.size()<3) continue; int sl=(int)(o.a[0]%NDR); DA&d=D[sl]; Case c((uint64_t)o.a[1]); c.np=np; c.me=me; c.p=&p; c.dm=D_REG==0?(1|2|4|8|16|32|128):1; c.size=o.a[2]; c.name="dra"; int kind=o.kind;
    if(!d.exists&&kind!=R_STALL&&kind!=R_FLICK&&kind!=R_RESTART) kind=R_CREATE; else if(d.exists&&!d.open&&kind!=R_STALL&&kind!=R_FLICK&&kind!=R_RESTART) kind=R_OPEN; else if(d.exists&&(kind==R_CREATE||kind==R_OPEN)) kind=R_RSECT;
    if(np>1&&c.r.chance(0.1)&&(int)c.r.below(np)==me) sim_stall(200000);
    switch(kind){
    case R_CREATE: { d.type=dtypes[c.r.below(6)]; d.nd=(int)c.r.range(1,4); int dm[4]; dims_for(c,d.nd,dm); long tot=1; dra_size_t D8[4],RQ[4]; for(int i=0;i<d.nd;i++){ d.dims[i]=dm[i]; D8[i]=dm[i]; tot*=dm[i]; RQ[i]=c.r.chance(0.15)?-1:c.r.chance(0.2)?dm[i]:c.r.range(1,dm[i]); } if(c.r.chance(0.15)) for(int i=0;i<d.nd;i++) RQ[i]=-1;
      long chunks=1; for(int i=0;i<d.nd;i++) if(RQ[i]>0) chunks*=(dm[i]+RQ[i]-1)/RQ[i]; if(chunks>150) for(int i=0;i<d.nd;i++) RQ[i]=(dm[i]+2)/3;
      d.name="arr"+std::to_string(uniq)+" of "+std::to_string(sl); d.file="d"+std::to_string(sl)+"."+std::to_string(uniq%3); uniq++; bool clash=false; for(auto&x:D) if(&x!=&d&&x.exists&&x.file==d.file) clash=true; if(clash) d.file+="x"+std::to_string(uniq); d.mode=c.r.chance(0.9)?DRA_RW:DRA_W; int nf=(int)c.r.pick({-1,1,1,2,3,np}),nio=(int)c.r.pick({-1,1,2,3,np,np}); int h=-1,rc; if(c.r.chance(0.3)) rc=NDRA_Create(settype(d),d.nd,D8,(char*)d.name.c_str(),(char*)d.file.c_str(),d.mode,RQ,&h); else if(c.r.chance(0.4)){ DRA_Set_default_config(nf,nio); rc=NDRA_Create(settype(d),d.nd,D8,(char*)d.name.c_str(),(char*)d.file.c_str(),d.mode,RQ,&h); } else rc=NDRA_Create_config(settype(d),d.nd,D8,(char*)d.name.c_str(),(char*)d.file.c_str(),d.mode,RQ,nf,nio,&h);
      if(rc) sim_fail(RCC,"creating a disk array returned %d",rc); for(auto&x:D) if(&x!=&d&&x.open&&x.h==h) sim_fail("wrong-result","two open disk arrays have handle %d",h); d.h=h; d.exists=d.open=true; d.v.assign(d.size(),Val()); d.known.assign(d.size(),0); sim_count("creations",1); sim_trace("create %s %dd %dx%dx%dx%d req %ld,%ld,%ld,%ld files %d io %d",d.file.c_str(),d.nd,dm[0],dm[1],dm[2],dm[3],(long)RQ[0],(long)RQ[1],(long)RQ[2],(long)RQ[3],nf,nio); break; }
    case R_WRITE: case R_WSECT: case R_READ: case R_RSECT: { bool rd=kind==R_READ||kind==R_RSECT,sect=kind==R_WSECT||kind==R_RSECT; if(!rd&&d.mode==DRA_R) rd=true; if(rd&&d.mode==DRA_W){ if(d.mode==DRA_R) break; rd=false; }
      ArrSpec ds; ds.nd=d.nd; for(int i=0;i<4;i++) ds.dims[i]=i<d.nd?d.dims[i]:1; Reg dr; if(sect) dr=rpatch(c,ds); else for(int i=0;i<d.nd;i++){ dr.lo[i]=0; dr.hi[i]=d.dims[i]-1; } 
      if(Q.size()>=5) waitk(c.r.below(Q.size())); for(size_t k=Q.size();k-->0;) if(Q[k].slot==sl&&(!rd||!Q[k].rd)&&inter(Q[k].dr,dr,d.nd)) waitk(k);
      bool tr=sect&&c.r.chance(0.3); int gd[4]; Reg gr; for(int i=0;i<d.nd;i++){ int j=tr?d.nd-1-i:i; int e=dr.hi[j]-dr.lo[j]+1; int extra=sect&&c.r.chance(0.6)?(int)c.r.below(4):0; gd[i]=sect?e+extra:d.dims[i]; gr.lo[i]=(int)c.r.below(gd[i]-e+1); gr.hi[i]=gr.lo[i]+e-1; } for(int i=d.nd;i<4;i++) gd[i]=1;
      DReq q; q.slot=sl; q.rd=rd; q.dr=dr; q.ga=mk(c,d.type,d.nd,gd,511&~256); GArr&a=q.ga; long mul=a.s.type==T_DC||a.s.type==T_SC?7:0; long base=(long)(c.r.next()>>50); long N=a.s.size(); for(long k=0;k<N;k++){ a.v[k].re=(base+k*37)%9973; if(mul) a.v[k].im=(base+k*mul)%811; } load(c,a); GA_Sync();
      // element k of the disk section <-> element of the array
      q.wantv=a.v; q.wantk.assign(N,1); long n=rsize(dr,d.nd); for(long k=0;k<n;k++){ int id[4]; long x=k; for(int i=d.nd-1;i>=0;i--){ int e=dr.hi[i]-dr.lo[i]+1; id[i]=(int)(x%e); x/=e; } int gi[4]; for(int i=0;i<d.nd;i++) gi[i]=gr.lo[i]+id[tr?d.nd-1-i:i]; int di[4]; for(int i=0;i<d.nd;i++) di[i]=dr.lo[i]+id[i]; long ge=a.s.lin(gi),de=ds.lin(di); if(rd){ q.wantv[ge]=d.v[de]; q.wantk[ge]=d.known[de]; } else { d.v[de]=a.v[ge]; d.known[de]=1; } }
      int id=-50,rc; if(sect){ dra_size_t dl[4],dh[4]; for(int i=0;i<d.nd;i++){ dl[i]=dr.lo[i]; dh[i]=dr.hi[i]; } rc=rd?NDRA_Read_section(tr,a.g,gr.lo,gr.hi,d.h,dl,dh,&id):NDRA_Write_section(tr,a.g,gr.lo,gr.hi,d.h,dl,dh,&id); } else rc=rd?NDRA_Read(a.g,d.h,&id):NDRA_Write(a.g,d.h,&id);
      sim_count(rd?"section reads":"section writes",1); if(tr) sim_count("transposed",1); sim_trace("%s %s%s",rd?"read":"write",d.file.c_str(),tr?" transposed":""); if(rc) sim_fail(RCC,"%s a disk array returned %d",rd?"reading":"writing",rc); q.id=id; Q.push_back(q); if(c.r.chance(0.35)) waitk(Q.size()-1); break; }
    case R_WAIT: if(!Q.empty()) waitk(c.r.below(Q.size())); break;
    case R_PROBE: if(!Q.empty()){ size_t k=c.r.below(Q.size()); int tries=c.r.chance(0.5)?1:1500; for(int t=0;t<tries;t++){ int st=-77; int rc=DRA_Probe(Q[k].id,&st); if(rc) sim_fail(RCC,"DRA_Probe returned %d",rc); sim_count("probes",1); if(st==-1){ sim_count("completed by probe",1); done(k,true); break; } if(st!=0) sim_fail("wrong-result","DRA_Probe gave status %d",st); if(t==1499) sim_fail("no-progress","DRA_Probe has not reported completion after 1500 calls"); } } break;
    case R_FLICK: DRA_Flick(); break;   // may complete requests
    case R_INQ: { int ty=-1,nd=-1; dra_size_t dm[8]; char nm[300],fn[300]; memset(nm,0,300); memset(fn,0,300); int rc=NDRA_Inquire(d.h,&ty,&nd,dm,nm,fn); if(rc) sim_fail(RCC,"NDRA_Inquire returned %d",rc); if(ty!=ctype(d.type)||nd!=d.nd) sim_fail("wrong-result","NDRA_Inquire reports type %d and %d dimensions, expected %d and %d",ty,nd,ctype(d.type),d.nd); for(int i=0;i<nd;i++) if((long)dm[i]!=d.dims[i]) sim_fail("wrong-result","NDRA_Inquire reports dimension %d as %ld, expected %d",i,(long)dm[i],d.dims[i]); if(d.name!=nm||d.file!=fn) sim_fail("wrong-result","NDRA_Inquire reports name '%s' file '%s', expected '%s' and '%s'",nm,fn,d.name.c_str(),d.file.c_str()); sim_count("inquiries",1); break; }
    case R_CLOSE: { flush(sl); int rc=DRA_Close(d.h); if(rc) sim_fail(RCC,"DRA_Close returned %d",rc); d.open=false; sim_count("closes",1); break; }
    case R_OPEN: { int m=(int)c.r.pick({DRA_RW,DRA_RW,DRA_R,DRA_W}); int h=-1; int rc=DRA_Open((char*)d.file.c_str(),m,&h); if(rc) sim_fail(RCC,"opening an existing disk array returned %d",rc); for(auto&x:D) if(&x!=&d&&x.open&&x.h==h) sim_fail("wrong-result","two open disk arrays have handle %d",h); d.h=h; d.mode=m; d.open=true; sim_count("reopened",1); break; }
    case R_DELETE: { flush(sl); int rc=DRA_Delete(d.h); if(rc) sim_fail(RCC,"DRA_Delete returned %d",rc); d.exists=d.open=false; if(sim_fs_bytes((d.file+".info").c_str(),nullptr,0,0)>=0||sim_fs_bytes(d.file.c_str(),nullptr,0,0)>=0||sim_fs_bytes((d.file+".0").c_str(),nullptr,0,0)>=0) sim_fail("wrong-result","files of a deleted disk array remain"); GA_Sync(); int h; rc=c.r.chance(0.5)?DRA_Open((char*)d.file.c_str(),DRA_RW,&h):-1; if(rc==0) sim_fail("wrong-result","a deleted disk array can still be opened"); sim_count("deletions",1); break; }
    case R_RESTART: { flush(-1); for(auto&x:D) if(x.open){ if(DRA_Close(x.h)) sim_fail(RCC,"DRA_Close failed"); x.open=false; } DRA_Terminate(); if(DRA_Init(c.r.chance(0.3)?-1:maxa,1e8,1e9,1e8)) sim_fail(RCC,"DRA_Init failed"); sim_count("restarts",1); break; }
    case R_STALL: if((int)c.r.below(np)==me) sim_stall(100000); break; } }
  flush(-1); for(auto&x:D) if(x.open){ Case c(7); (void)c; if(x.mode!=DRA_W){ // final read of everything
      int gd[4]={1,1,1,1}; for(int i=0;i<x.nd;i++) gd[i]=x.dims[i]; Case k(99); k.np=np; k.me=me; k.p=&p; k.dm=1; k.name="final"; DReq q; q.slot=(int)(&x-D); q.rd=true; q.ga=mk(k,x.type,x.nd,gd,1); for(auto&y:q.ga.v) y=Val(); load(k,q.ga); GA_Sync(); q.wantv=x.v; q.wantk=x.known; int id; if(NDRA_Read(q.ga.g,x.h,&id)) sim_fail(RCC,"NDRA_Read failed"); q.id=id; Q.push_back(q); waitk(0); }
    if(DRA_Delete(x.h)) sim_fail(RCC,"DRA_Delete failed"); }
  sim_fs_arm(0); DRA_Terminate(); GA_Sync(); shutdown(); }
WORKLOAD(dra,gen,coll_setup,run,coll_check)
