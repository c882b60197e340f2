// C16: arrays created, duplicated, deallocated, overlaid and destroyed on processes and groups, with a memory limit or failing
// allocations; outcome agreement, accounting, contents of the other arrays, leaks and what is left after termination.
#include "common.h"
enum { O_CREATE,O_DUP,O_DESTROY,O_REALLOC,O_OVERLAY,O_CHECK,O_GNEW,O_GDEL,O_CYCLE,O_FAIL,O_LIMIT,O_MEM,O_N };
static const int NS=6,NG=3;
struct Res { int n,min,max; long size; };
struct LSt { Res r[4096]; };
static LSt* ls(){ return (LSt*)sim_get_state(); }
struct Slot { bool alive=false; ArrSpec s; int g=0,grp=-1; uint64_t seed=0; long avail=0,inq=0; int parent=-1; };
struct Grp { bool alive=false; int h=0; std::vector<int> mem; int me=-1; };
struct LX { Program*p; Slot s[NS]; Grp g[NG]; int np,me; bool lim; int opno=0; long curlim=0; bool inj=false; };
static Val cell(uint64_t seed,long i,int t){ Rng q(seed+i*977); q.next(); Val v; v.re=q.range(-90,90); if(tcplx(t)) v.im=q.range(-90,90); return v; }
static int gn(LX&x,int grp){ return grp<0?x.np:(int)x.g[grp].mem.size(); }
static int gme(LX&x,int grp){ return grp<0?x.me:x.g[grp].me; }
static void gsync(LX&x,int grp){ if(grp<0) GA_Sync(); else GA_Pgroup_sync(x.g[grp].h); }
// every member of the group reports how a call went
static void agree(LX&x,int grp,int ok,const char*what){ Res&r=ls()->r[(x.opno*2)%4096]; if(!r.n){ r.min=r.max=ok; } r.n++; if(ok<r.min) r.min=ok; if(ok>r.max) r.max=ok; if(r.min!=r.max) sim_fail("outcome-differs","%s %s on member %d of %d but %s on another member",what,ok?"succeeded":"failed",gme(x,grp),gn(x,grp),ok?"failed":"succeeded"); }
static void wfill(LX&x,Slot&a){ int np=gn(x,a.grp),me=gme(x,a.grp); ArrSpec&s=a.s; int es=tsize(s.type),n0=s.dims[0],lo0=(int)((long)n0*me/np),hi0=(int)((long)n0*(me+1)/np)-1; if(hi0>=lo0){ int lo[4],hi[4],ld[4]; long row=1; for(int i=0;i<s.nd;i++){ lo[i]=0; hi[i]=s.dims[i]-1; if(i){ ld[i-1]=s.dims[i]; row*=s.dims[i]; } } lo[0]=lo0; hi[0]=hi0; long n=row*(hi0-lo0+1); char*b=(char*)sim_buf(n*es); for(long k=0;k<n;k++) enc(s.type,b+k*es,cell(a.seed,row*lo0+k,s.type)); NGA_Put(a.g,lo,hi,b,ld); sim_buf_free(b); } gsync(x,a.grp); }
static void wcheck(LX&x,Slot&a,const char*when){ ArrSpec&s=a.s; int es=tsize(s.type); int lo[4],hi[4],ld[4]; for(int i=0;i<s.nd;i++){ lo[i]=0; hi[i]=s.dims[i]-1; if(i) ld[i-1]=s.dims[i]; } long n=s.size(); char*b=(char*)sim_buf(n*es); NGA_Get(a.g,lo,hi,b,ld); for(long k=0;k<n;k++){ Val g=dec(s.type,b+k*es),w=cell(a.seed,k,s.type); if(g!=w) sim_fail("wrong-value","element %ld of a %s %s array is (%ld,%ld), expected (%ld,%ld) (%s)",k,tname(s.type),dname(s.dist),g.re,g.im,w.re,w.im,when); } sim_buf_free(b); sim_count("elements compared",n);
  int ty,nd,d[7]; NGA_Inquire(a.g,&ty,&nd,d); bool bad=ty!=ctype(s.type)||nd!=s.nd; for(int i=0;i<s.nd&&!bad;i++) bad=d[i]!=s.dims[i]; if(bad) sim_fail("wrong-array","an array no longer reports its type and dimensions (%s)",when); }
// an upper bound of the memory one member can need for the array
static long bound(const ArrSpec&s){ long n=tsize(s.type); for(int i=0;i<s.nd;i++) n*=s.dims[i]+2*s.gw[i]+(s.dist>=D_BC&&s.dist<=D_TIRR?s.block[i]*2+2:0); return n; }
static bool distinct(LX&x,int me,int g){ for(int i=0;i<NS;i++) if(i!=me&&x.s[i].alive&&x.s[i].g==g) return false; return true; }
static void born(LX&x,int k,const char*what,int g,long a0,long i0){ Slot&a=x.s[k]; agree(x,a.grp,g!=0,what); 
  if(!g){ sim_count("creations refused",1); if(!x.lim&&!x.inj) sim_fail("create-failed","%s a %s array failed without a memory limit",what,dname(a.s.dist)); if((long)GA_Memory_avail()!=a0||(long)GA_Inquire_memory()!=i0) sim_fail("wrong-accounting","after %s failed %ld bytes are available and %ld in use, before %ld and %ld",what,(long)(int)GA_Memory_avail(),(long)GA_Inquire_memory(),a0,i0); a.alive=false;
    for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].grp==a.grp) wcheck(x,x.s[i],"after a failed creation"); gsync(x,a.grp); return; }
  sim_count("arrays",1); if(!distinct(x,k,g)) sim_fail("handle-reused","%s gave the handle of another live array",what); a.g=g; a.alive=true; a.inq=(long)GA_Inquire_memory()-i0; if(x.lim){ a.avail=a0-(long)GA_Memory_avail(); if((long)GA_Memory_avail()<0) sim_fail("wrong-accounting","%s succeeded although %ld bytes are available",what,(long)GA_Memory_avail()); if(a.avail!=a.inq) sim_fail("wrong-accounting","%s took %ld of the available bytes and added %ld to the memory in use",what,a.avail,a.inq); }
  int lo[4],hi[4]; long own=0; if(a.s.dist==D_REG||a.s.dist==D_CHUNK||a.s.dist==D_IRREG||a.s.dist==D_GHOST){ NGA_Distribution(g,gme(x,a.grp),lo,hi); own=tsize(a.s.type); for(int i=0;i<a.s.nd;i++) own*=lo[i]<0||hi[i]<lo[i]?0:hi[i]-lo[i]+1; } if(a.inq<own) sim_fail("wrong-accounting","an array uses %ld bytes but this process holds %ld",a.inq,own);
  wfill(x,a); }
// room for the whole array on every member?
static bool room(LX&x,int grp,const ArrSpec&s){ long v=(long)GA_Memory_avail(); if(grp<0) GA_Lgop(&v,1,(char*)"min"); else GA_Pgroup_lgop(x.g[grp].h,&v,1,(char*)"min"); return v>=bound(s); }
static void kill(LX&x,int k){ Slot&a=x.s[k]; long a0=(long)GA_Memory_avail(),i0=(long)GA_Inquire_memory(); GA_Destroy(a.g); a.alive=false; long da=(long)GA_Memory_avail()-a0,di=i0-(long)GA_Inquire_memory(); if(di!=a.inq||(x.lim&&da!=a.avail)) sim_fail("wrong-accounting","destroying a %s array gave back %ld bytes and reduced the memory in use by %ld; it had taken %ld",dname(a.s.dist),da,di,a.inq); }
static ArrSpec rspec(LX&x,Rng&r,int n,long size){ int nd=(int)r.range(1,3),d[4]={1,1,1,1}; double side=pow((double)size,1.0/nd); for(int i=0;i<nd;i++) d[i]=std::max(1,(int)(side*(0.4+r.unit()*1.2))); long dm=x.p->get("x.dists",511); if(!dm) dm=1; int dist; do dist=r.chance(0.3)?0:(int)r.below(D_N); while(!((dm>>dist)&1)); return make_spec((long)(r.next()>>40),(int)r.below(T_N),nd,d,dist,n); }
static int pickgrp(LX&x,Rng&r){ int g=(int)r.below(NG+2)-2; if(g<0) return -1; return x.g[g].alive?g:-1; }
// ----- the same block of work three times over; afterwards the memory held must not have grown
struct Leak { long h; int shm,win,comm; };
static void cyc_body(LX&x,uint64_t seed,int rep){ Rng r(seed); int n=(int)r.range(1,4); int h=-1; std::vector<int> mem; int me=x.me; (void)rep;
  if(x.np>1&&r.chance(0.5)){ for(int i=0;i<x.np;i++) if(r.chance(0.6)) mem.push_back(i); if(mem.empty()) mem.push_back(0); me=-1; for(size_t i=0;i<mem.size();i++) if(mem[i]==x.me) me=(int)i; int w=(int)r.below(3); if(w==0){ std::vector<int> col(x.np,0); for(int m:mem) col[m]=1; h=GA_Pgroup_split_irreg(GA_Pgroup_get_world(),col[x.me]); if(me<0){ GA_Pgroup_destroy(h); } } else if(me>=0){ h=GA_Pgroup_create(mem.data(),(int)mem.size()); if(w==2){ int d=GA_Pgroup_duplicate(h); GA_Pgroup_destroy(h); h=d; } } }
  bool in=mem.empty()||me>=0; int gs=mem.empty()?x.np:(int)mem.size();
  if(in&&!mem.empty()) GA_Pgroup_set_default(h);
  for(int k=0;k<n;k++){ ArrSpec s=rspec(x,r,gs,r.range(10,300)); int use=(int)r.below(9); uint64_t q=r.next(); bool dup=r.chance(0.4); if(!in) continue; int g=create_arr(s,"cycle",mem.empty()?-1:h); if(!g) continue; int g2=0; char nm[]="dup"; if(dup) g2=GA_Duplicate(g,nm);
    int lo[4],hi[4],ld[4]; for(int i=0;i<s.nd;i++){ lo[i]=0; hi[i]=s.dims[i]-1; if(i) ld[i-1]=s.dims[i]; } char*b=(char*)sim_buf(s.size()*16); memset(b,0,s.size()*16);
    GA_Zero(g); if(use==1) NGA_Put(g,lo,hi,b,ld); else if(use==2) NGA_Get(g,lo,hi,b,ld); else if(use==3&&s.type!=T_LL){ char one[16]; enc(s.type,one,Val{1,0}); NGA_Acc(g,lo,hi,b,ld,one); } else if(use==4){ int sub[4]={0,0,0,0}; int*sp[1]={sub}; NGA_Gather(g,b,sp,1); } else if(use==5&&g2&&s.type!=T_LL) GA_Copy(g,g2); else if(use==6){ ga_nbhdl_t nb; NGA_NbPut(g,lo,hi,b,ld,&nb); NGA_NbWait(&nb); } else if(use==7&&s.dist==D_GHOST){ GA_Update_ghosts(g); } else if(use==8&&s.nd==2&&s.dims[0]==s.dims[1]&&g2) { char one[16]; enc(s.type,one,Val{1,0}); GA_Transpose(g,g2); }
    (void)q; if(mem.empty()) GA_Sync(); else GA_Pgroup_sync(h); sim_buf_free(b); if(g2) GA_Destroy(g2); GA_Destroy(g); }
  if(in&&!mem.empty()){ GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Pgroup_destroy(h); } GA_Sync(); }
static Leak leak(LX&x){ Leak l; GA_Sync(); sim_oob_barrier(9000,x.np); l.h=sim_heap_live(sim_rank()); l.shm=sim_shm_live(); l.win=sim_win_live(); l.comm=sim_comm_live(); sim_oob_barrier(9001,x.np); return l; }
static void cycle(LX&x,uint64_t seed){ cyc_body(x,seed,0); cyc_body(x,seed,1); Leak a=leak(x); long mark=sim_heap_mark(sim_rank()); cyc_body(x,seed,2); Leak b=leak(x); cyc_body(x,seed,3); Leak c=leak(x); sim_count("leak checks",1);
  if(b.h>a.h&&c.h>b.h) sim_heap_trace(sim_rank(),mark); if(b.h>a.h&&c.h>b.h) sim_fail("leak","creating, using and destroying the same arrays and groups again left %ld more bytes allocated on process %d",b.h-a.h,x.me);
  if(b.shm>a.shm&&c.shm>b.shm) sim_fail("leak","creating and destroying the same arrays left %d shared memory objects",b.shm-a.shm); if(b.win>a.win&&c.win>b.win) sim_fail("leak","creating and destroying the same arrays left %d windows",b.win-a.win); if(b.comm>a.comm&&c.comm>b.comm) sim_fail("leak","creating and destroying the same arrays and groups left %d communicators",b.comm-a.comm); }
static void step(LX&x,Op&o,bool inject){ x.opno++; Rng r((uint64_t)o.a[0]); int k=(int)r.below(NS); long size=o.a[1]; Rng jq(o.a[0]+x.me*17); if(jq.chance(0.15)) sim_stall(jq.pick({1000,100000,2000000}));
  static const char*on[]={"create","duplicate","destroy","deallocate and allocate","overlay","check","new group","delete group","cycle","failing allocation","limit","local memory"}; sim_trace("%s slot %d",on[o.kind],k);
  switch(o.kind){
  case O_FAIL: case O_CREATE: { int grp=pickgrp(x,r); ArrSpec s=rspec(x,r,gn(x,grp),size); if(o.kind==O_FAIL&&s.dist==D_GHOST){ s.dist=D_REG; for(int&w:s.gw) w=0; } int vict=(int)r.below(x.np); if(x.s[k].alive){ for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].parent==k) kill(x,i); kill(x,k); } if(grp>=0&&gme(x,grp)<0) break;
      Slot&a=x.s[k]; a.s=s; a.grp=grp; a.seed=r.next(); a.parent=-1; bool must=!x.lim||room(x,grp,s); x.inj=o.kind==O_FAIL;
      if(o.kind==O_FAIL&&inject&&vict==x.me){ sim_trace("arming"); sim_abort_after_alloc_failure_ok(1); if(x.p->get("port")==P_PR||x.p->get("port")==P_PT) sim_shm_fail_next(1+(int)r.below(2)); else if(x.p->get("port")!=P_MPI3) sim_alloc_arm_big(sim_rank(),0,1,std::max<long>(256,tsize(s.type)*s.size()/gn(x,grp)/2)); }
      long a0=(long)GA_Memory_avail(),i0=(long)GA_Inquire_memory(); int g=create_arr(s,"life",grp<0?-1:x.g[grp].h); if(o.kind==O_FAIL&&inject&&vict==x.me) { sim_alloc_arm(sim_rank(),-1,0); sim_shm_fail_next(0); }
      if(!g&&must&&o.kind==O_CREATE) sim_fail("create-failed","creating a %s array of %ld bytes failed although every member has room for all of it",dname(s.dist),bound(s)); born(x,k,"creation of an array",g,a0,i0); break; }
  case O_DUP: { int j=(int)r.below(NS); uint64_t sd=r.next(); if(j==k) break; if(x.s[k].alive) kill(x,k); Slot&b=x.s[j]; Slot&a=x.s[k]; if(!b.alive) break; int grp=b.grp; a=Slot(); a.s=b.s; a.grp=grp; a.seed=sd; bool must=!x.lim||room(x,grp,b.s); long a0=(long)GA_Memory_avail(),i0=(long)GA_Inquire_memory(); char nm[]="copy"; int g=GA_Duplicate(b.g,nm); if(!g&&must) sim_fail("create-failed","duplicating a %s array failed although every member has room for it",dname(b.s.dist)); born(x,k,"duplication of an array",g,a0,i0); if(a.alive) wcheck(x,b,"after duplication"); gsync(x,grp); break; }
  case O_DESTROY: if(x.s[k].alive){ for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].parent==k) kill(x,i); kill(x,k); } break;
  case O_REALLOC: { Slot&a=x.s[k]; if(!a.alive||a.parent>=0) break; for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].parent==k) kill(x,i); if(a.s.dist!=D_REG&&a.s.dist!=D_CHUNK&&a.s.dist!=D_IRREG) break; long i0=(long)GA_Inquire_memory(),a0=(long)GA_Memory_avail(); GA_Deallocate(a.g); if(i0-(long)GA_Inquire_memory()!=a.inq||(x.lim&&(long)GA_Memory_avail()-a0!=a.avail)) sim_fail("wrong-accounting","deallocating an array gave back %ld bytes, it had taken %ld",i0-(long)GA_Inquire_memory(),a.inq);
      a0=(long)GA_Memory_avail(); i0=(long)GA_Inquire_memory(); int ok=GA_Allocate(a.g); a.alive=false; if(!ok&&(!x.lim||a0>=a.inq)&&x.curlim==x.p->get("ga.limit",0)) sim_fail("create-failed","allocating again an array that was just deallocated failed"); born(x,k,"allocation of a deallocated array",ok?a.g:0,a0,i0); break; }
  case O_CHECK: for(int i=0;i<NS;i++) if(x.s[i].alive) wcheck(x,x.s[i],"later"); break;
  case O_GNEW: { int g=(int)r.below(NG); std::vector<int> m; for(int i=0;i<x.np;i++) if(r.chance(0.65)) m.push_back(i); if(m.empty()) m.push_back((int)r.below(x.np)); Grp&G=x.g[g]; if(G.alive) break; G.alive=true; G.mem=m; G.me=-1; for(size_t i=0;i<m.size();i++) if(m[i]==x.me) G.me=(int)i; if(G.me>=0) G.h=GA_Pgroup_create(m.data(),(int)m.size()); sim_count("groups",1); break; }
  case O_GDEL: { int g=(int)r.below(NG); Grp&G=x.g[g]; if(!G.alive) break; for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].grp==g) kill(x,i); if(G.me>=0&&!GA_Pgroup_destroy(G.h)) sim_fail("wrong-group","destroying a group failed"); G.alive=false; break; }
  case O_CYCLE: cycle(x,r.next()); break;
  case O_LIMIT: { if(!x.lim) break; long d=r.range(-2000,6000); long lim=x.curlim; long nl=std::max(0L,lim+d); long a0=(long)GA_Memory_avail(); GA_Sync(); GA_Set_memory_limit((size_t)nl); x.curlim=nl; long a1=(long)GA_Memory_avail(); if(a1-a0!=nl-lim) sim_fail("wrong-accounting","changing the memory limit from %ld to %ld changed the available memory from %ld to %ld",lim,nl,a0,a1); GA_Sync(); break; }
  case O_MEM: { int t=(int)r.below(T_N); int n=(int)size; long a0=(long)GA_Memory_avail(); if(x.lim){ long v=a0; GA_Lgop(&v,1,(char*)"min"); if(v<n*16L+1000) break; } void*pp=GA_Getmem(ctype(t),n,-1); if(!pp) sim_fail("create-failed","GA_Getmem returned no memory"); memset(pp,x.me+1,(size_t)n*tsize(t)); GA_Sync(); for(int i=0;i<n*tsize(t);i++) if(((unsigned char*)pp)[i]!=x.me+1) sim_fail("wrong-value","memory from GA_Getmem was changed"); GA_Sync(); GA_Freemem(pp); GA_Sync(); if((long)GA_Memory_avail()!=a0) sim_fail("wrong-accounting","GA_Freemem left %ld bytes available, before %ld",(long)GA_Memory_avail(),a0); sim_count("memory blocks",1); break; }
  default: break; } }
static void gen(Program&p,Rng&r){ gen_base(p,r,1,7); p.set("ma.stack",60000); p.set("ma.heap",60000); bool lim=r.chance(0.6); if(lim) p.set("ga.limit",r.pick({500,2000,8000,40000})); bool fail=r.chance(0.15); bool cyc=r.chance(0.3);
  int n=(int)r.range(3,r.chance(0.2)?60:25); for(int i=0;i<n;i++){ Op o; int w=(int)r.below(100); o.kind=w<40?O_CREATE:w<50?O_DUP:w<64?O_DESTROY:w<72?O_REALLOC:w<80?O_CHECK:w<88?O_GNEW:w<93?O_GDEL:w<96?O_LIMIT:O_MEM; if(cyc&&r.chance(0.15)) o.kind=O_CYCLE; if(fail&&r.chance(0.1)) o.kind=O_FAIL; if(p.get("x.case",-1)>=0) o.kind=(int)p.get("x.case"); o.a={(long)(r.next()>>30),r.chance(0.1)?r.range(1,6):r.chance(0.15)?r.range(1000,9000):r.range(5,300)}; p.ops.push_back(o); } p.set("leave",r.chance(0.5)); }
static void setup(Program&){ LSt*g=new LSt; memset(g,0,sizeof *g); sim_set_state(g); }
static void check(Program&p){ if(p.get("nofail_end",0)) return; if(sim_shm_live()) sim_fail("leak","%d shared memory objects are left after termination",sim_shm_live()); if(sim_sem_live()) sim_fail("leak","%d semaphores are left after termination",sim_sem_live()); if(sim_win_live()) sim_fail("leak","%d windows are left after termination",sim_win_live()); }
static void run(Program&p){ boot(p); LX x; x.p=&p; x.np=GA_Nnodes(); x.me=GA_Nodeid(); x.lim=p.get("ga.limit",0)>0; x.curlim=p.get("ga.limit",0);
  if((bool)GA_Memory_limited()!=x.lim) sim_fail("wrong-accounting","GA_Memory_limited() is %d",GA_Memory_limited());
  for(auto&o:p.ops) step(x,o,true);
  for(int i=0;i<NS;i++) if(x.s[i].alive) wcheck(x,x.s[i],"at the end"); GA_Sync();
  if(!p.get("leave")){ for(int i=0;i<NS;i++) if(x.s[i].alive&&x.s[i].parent>=0) kill(x,i); for(int i=0;i<NS;i++) if(x.s[i].alive) kill(x,i); if(x.lim&&(long)GA_Memory_avail()!=x.curlim) sim_fail("wrong-accounting","with every array destroyed %ld bytes are available, the limit is %ld",(long)GA_Memory_avail(),x.curlim); if(GA_Inquire_memory()!=0) sim_fail("wrong-accounting","with every array destroyed %ld bytes are in use",(long)GA_Inquire_memory()); for(auto&G:x.g) if(G.alive&&G.me>=0) GA_Pgroup_destroy(G.h); }
  GA_Sync(); shutdown(); }
WORKLOAD(life,gen,setup,run,check)
