// Model-based workload over global arrays: puts, gets, accumulates (plain, strided, periodic,
// nonblocking), gather/scatter, atomic counters, fences with message hand-off, direct local access.
#include "common.h"
#include <memory>
enum { K_CREATE,K_DESTROY,K_SYNC,K_PUT,K_GET,K_ACC,K_WAIT,K_SCATTER,K_GATHER,K_SCACC,K_RDINC,K_HANDOFF,K_STALL,K_VERIFY,K_LOCALW,K_TEST,K_FILL,K_PSYNC,K_RGET,K_N };
static std::string listl(const std::vector<long>&v){ std::string r; for(size_t k=0;k<v.size()&&k<8;k++) r+=(k?",":"")+std::to_string(v[k]); return r; }
enum { F_NB=1,F_STRIDED=2,F_PERIODIC=4,F_FLAT=8,F_BYTEBUF=16 };
enum { NSLOT=48, MAXARR=4 };
struct Contrib { int rank,op; bool nb; Val v; };
struct Claim { int8_t wr=-1; bool ri=false,rr=false; uint16_t acc=0,rd=0,nbw=0,nbr=0; std::shared_ptr<std::vector<Contrib>> con; };
struct Arr { ArrSpec s; bool alive=false; std::vector<Val> v; std::vector<Claim> c; int h[16],gh[16]; };
struct Todo { bool skip=true; int slot=-1; std::vector<std::shared_ptr<std::vector<Contrib>>> con; std::vector<Val> data; std::vector<Val> exp; bool implicit_wait=false; };   // per op
struct RI { int op,rank; long e,inc,ret,base; uint64_t t0,t1; bool done=false; };
struct St { int np; std::vector<Todo> t; Arr a[MAXARR]; std::vector<std::vector<Val>> snap; std::vector<RI> ri; std::map<int,std::vector<Val>> snaps; long gets=0,elems=0; int hsync=0; };
static St* st(){ return (St*)sim_get_state(); }
// arguments: CREATE [arr,type,nd,d0..d3,dist,seed]; PUT/GET/ACC [arr,flags,slot,alpha,lo0..3,hi0..3,skip0..3,pad1..3]
// SCATTER/GATHER/SCACC [arr,flags,alpha,seed,n]; RDINC [arr,elem,inc]; HANDOFF [arr,to,lo..,hi..]; STALL [ns]; LOCALW [arr,seed]; WAIT [slot]
static void argpatch(Rng&r,Op&o,const int*d,int nd,bool periodic,int maxext=0){
  int lo[4]={0,0,0,0},hi[4]={0,0,0,0};
  for(int i=0;i<nd;i++){ if(r.chance(0.2)){ lo[i]=0; hi[i]=d[i]-1; } else { int a=(int)r.below(d[i]),b=(int)r.below(d[i]); lo[i]=std::min(a,b); hi[i]=std::max(a,b); } 
    if(periodic&&r.chance(0.7)){ int ext=(int)r.range(1,d[i]); lo[i]=r.chance(0.75)?(int)r.range(-d[i],2*d[i]-1):(int)r.range(-4*d[i],4*d[i]); hi[i]=lo[i]+ext-1; } }
  for(int i=0;i<4;i++) o.a.push_back(lo[i]); for(int i=0;i<4;i++) o.a.push_back(hi[i]); }
struct Mix { int put,get,acc,nb,strided,periodic,sc,ga,sa,ri,handoff,localw,stall,fill,recreate; int maxelem; int nops_lo,nops_hi; int dists; };
// a = re + 1000*im; the imaginary part counts for complex types only
static Val alphaval(long a,int t){ long im=(a+100500)/1000-100; Val v{a-1000*im,0}; if(tcplx(t)) v.im=im; return v; }
static long genalpha(Rng&r){ return r.pick({1,1,1,2,3,-1,0,5})+1000*r.pick({0,0,0,1,-1,2,-3}); }
static void gen_mix(Program&p,Rng&r,const Mix&m,int np_lo=2,int np_hi=6){
  gen_base(p,r,np_lo,np_hi); int np=(int)p.get("np"); for(const char*k:{"x.dists"}) (void)k; int na=(int)r.range(1,m.ri>40?2:3); int D[MAXARR][4],ND[MAXARR],TY[MAXARR],DI[MAXARR];
  auto mkarr=[&](int k){ int nd=(int)r.pick({1,2,2,2,3,3,4}); long cap=r.chance(0.15)?m.maxelem*4:r.chance(0.5)?m.maxelem:60; double side=pow((double)cap,1.0/nd); ND[k]=nd; for(int i=0;i<4;i++) D[k][i]=i<nd?std::max(1,(int)(side*(0.4+r.unit()*1.2))):1; 
    TY[k]=(int)r.below(T_N); DI[k]=(int)r.below(D_N); if(r.chance(0.25)) DI[k]=D_REG; { long dm=p.get("x.dists",-1); while(!((dm>>DI[k])&1)) DI[k]=(int)r.below(D_N); } if(m.periodic&&DI[k]!=D_REG&&r.chance(0.5)&&(p.get("x.dists",-1)&2)) DI[k]=D_CHUNK;
    if(m.ri>40||(k==na-1&&m.ri)){ TY[k]=(int)r.pick({T_INT,T_LONG}); if(m.ri>40){ ND[k]=(int)r.range(1,2); D[k][0]=(int)r.range(1,6); D[k][1]=ND[k]>1?(int)r.range(1,4):1; D[k][2]=D[k][3]=1; } }
    Op o; o.kind=K_CREATE; o.a={k,TY[k],ND[k],D[k][0],D[k][1],D[k][2],D[k][3],DI[k],(long)(r.next()>>40),!p.get("x.nogrp")&&r.chance(0.25)?r.range(1,1000):0}; p.ops.push_back(o); };
  for(int k=0;k<na;k++) mkarr(k);
  int n=(int)r.range(m.nops_lo,m.nops_hi); int tot=m.put+m.get+m.acc+m.sc+m.ga+m.sa+m.ri+m.handoff+m.localw+m.stall+m.fill+m.recreate; int since=0; double syncp=r.pick({3,8,15})/100.0;
  for(int i=0;i<n;i++){
    if(r.chance(syncp)){ Op o; o.kind=r.chance(0.3)?K_VERIFY:r.chance(0.2)?K_PSYNC:K_SYNC; o.a={0}; p.ops.push_back(o); }
    int k=(int)r.below(na); long x=r.below(tot); int rank=(int)r.below(np); Op o; o.rank=rank; int nd=ND[k]; const int*d=D[k];
    auto rw=[&](int kind){ o.kind=kind; long fl=0; int slot=0; bool per=r.below(100)<m.periodic&&kind!=K_FILL; if(per) fl|=F_PERIODIC; else if(r.below(100)<m.strided&&!p.get("x.nostr",0)) fl|=F_STRIDED; else if(r.below(100)<m.nb){ fl|=F_NB; slot=(int)r.below(m.nb>50?NSLOT:6); }
      o.a={k,fl,slot,genalpha(r)}; argpatch(r,o,d,nd,per); for(int i=0;i<4;i++) o.a.push_back(fl&F_STRIDED?r.pick({1,2,2,3,5}):1); for(int i=0;i<3;i++) o.a.push_back(r.chance(0.3)?r.range(1,4):0); p.ops.push_back(o);
      if((fl&F_NB)&&r.chance(0.4)){ Op w; w.kind=r.chance(0.3)?K_TEST:K_WAIT; w.rank=r.chance(0.8)?rank:(int)r.below(np); w.a={r.chance(0.7)?slot:r.below(6)}; p.ops.push_back(w); } };
    if((x-=m.put)<0) rw(K_PUT); else if((x-=m.get)<0) rw(K_GET); else if((x-=m.acc)<0){ if(r.below(100)<m.acc/2){ o.kind=K_RGET; long sz=1; for(int i=0;i<nd;i++) sz*=d[i]; o.a={k,r.below(sz)}; p.ops.push_back(o); } else rw(K_ACC); }
    else if((x-=m.sc)<0||(x-=m.ga)<0||(x-=m.sa)<0){ long y=r.below(m.sc+m.ga+m.sa); o.kind=y<m.sc?K_SCATTER:y<m.sc+m.ga?K_GATHER:K_SCACC; long sz=1; for(int i=0;i<nd;i++) sz*=d[i]; o.a={k,r.chance(0.5)?F_FLAT:0,genalpha(r),(long)(r.next()>>36),r.chance(0.1)?r.range(1,3*sz):r.range(0,std::min(sz,40L))}; p.ops.push_back(o); }
    else if((x-=m.ri)<0){ o.kind=K_RDINC; k=m.ri>40?k:na-1; long sz=1; for(int i=0;i<ND[k];i++) sz*=D[k][i]; o.a={k,r.below(sz),r.range(1,9)}; p.ops.push_back(o); if(r.chance(m.ri>40?0.6:0.3)){ int c=(int)r.range(1,m.ri>40?16:6); for(int q=0;q<c;q++){ Op o2=o; o2.rank=(int)r.below(np); o2.a[2]=r.range(1,9); p.ops.push_back(o2);} } }
    else if((x-=m.handoff)<0){ o.kind=K_HANDOFF; o.a={k,r.below(np)}; argpatch(r,o,d,nd,false); o.a.push_back(r.below(6)); p.ops.push_back(o); }
    else if((x-=m.localw)<0){ o.kind=K_LOCALW; o.a={k,(long)(r.next()>>40)}; p.ops.push_back(o); }
    else if((x-=m.stall)<0){ o.kind=K_STALL; o.a={r.pick({1000,50000,1000000,20000000})}; p.ops.push_back(o); }
    else if((x-=m.fill)<0){ o.kind=K_FILL; o.rank=-1; o.a={k,r.range(-50,50)}; p.ops.push_back(o); }
    else { Op q; q.kind=K_DESTROY; q.a={k}; p.ops.push_back(q); mkarr(k); }
  }
}
static Val dataval(long op,long k,int t,bool small){ uint64_t z=(uint64_t)op*1000003u+k*7919u+12345; z^=z>>13; z*=0x9E3779B97F4A7C15ull; z^=z>>29; long m=small?200:200000; Val v; v.re=(long)(z%(2*m))-m; if(tcplx(t)) v.im=(long)((z>>32)%(2*m))-m; return v; }
static bool getpatch(const Op&o,int base,const ArrSpec&s,int*lo,int*hi,bool per){ for(int i=0;i<4;i++){ lo[i]=(int)o.a[base+i]; hi[i]=(int)o.a[base+4+i]; } for(int i=0;i<s.nd;i++){ if(!per){ lo[i]=std::min(std::max(0,lo[i]),s.dims[i]-1); hi[i]=std::min(std::max(lo[i],hi[i]),s.dims[i]-1);} else if(hi[i]-lo[i]+1>s.dims[i]) hi[i]=lo[i]+s.dims[i]-1; } return true; }
static int wrapi(int x,int d){ x%=d; return x<0?x+d:x; }
// elements of a put/get/acc in buffer order, with their buffer offsets
struct Xfer { Patch pt; std::vector<long> el; std::vector<long> off; int skip[4]; int lo[4],hi[4]; };
static Xfer xfer(const Op&o,const ArrSpec&s){ Xfer x; long fl=o.a[1]; getpatch(o,4,s,x.lo,x.hi,fl&F_PERIODIC); int pad[4]={0,0,0,0}; for(int i=1;i<4;i++) pad[i]=(int)o.a[16+i-1]; for(int i=0;i<4;i++) x.skip[i]=(int)o.a[12+i];
  int clo[4],chi[4]; for(int i=0;i<s.nd;i++){ clo[i]=0; chi[i]=(x.hi[i]-x.lo[i])/x.skip[i]; if(!(fl&F_STRIDED)) chi[i]=x.hi[i]-x.lo[i]; }
  x.pt=mk_patch(s.nd,clo,chi,pad); for(long k=0;k<x.pt.n;k++){ int rel[4],id[4]; pat_rel(x.pt,k,rel); for(int i=0;i<s.nd;i++){ id[i]=x.lo[i]+rel[i]*(fl&F_STRIDED?x.skip[i]:1); if(fl&F_PERIODIC) id[i]=wrapi(id[i],s.dims[i]); } x.el.push_back(s.lin(id)); x.off.push_back(pat_off(x.pt,rel)); }
  return x; }
static std::vector<long> gslist(const Op&o,const ArrSpec&s,bool distinct){ Rng r(o.a[3]); std::vector<long> v; std::set<long> seen; long sz=s.size(); bool hot=o.kind==K_SCACC&&o.a[3]%2==0; for(long i=0;i<o.a[4];i++){ long e=r.below(hot?std::min(sz,5L):sz); if(!hot&&i&&r.chance(0.3)) e=(v.empty()?e:std::min(sz-1,v.back()+1)); if(distinct&&!seen.insert(e).second) continue; v.push_back(e);} return v; }
// elements a rank owns, from the library's own distribution (checked elsewhere); computed at run time for LOCALW
static void setup(Program&p){
  St*s=new St; s->np=(int)p.get("np"); s->t.resize(p.ops.size()); sim_set_state(s);
  struct Slot { bool busy=false; int arr=-1,kind=0,op=-1; std::vector<long> el; }; std::vector<std::vector<Slot>> sl(s->np,std::vector<Slot>(NSLOT));
  int phase=0; auto clear=[&](){ phase++; for(auto&a:s->a) for(auto&c:a.c) c=Claim(); for(auto&v:sl) for(auto&x:v) x.busy=false; };
  for(size_t i=0;i<p.ops.size();i++){ Op&o=p.ops[i]; Todo&t=s->t[i]; int r=o.rank; uint16_t bit=r>=0?1u<<r:0; if(r>=s->np) continue;
    auto addcon=[&](Claim&c,Val now,Val d,int rank,int op,bool nb){ if(!c.con) c.con=std::make_shared<std::vector<Contrib>>(1,Contrib{-1,-1,false,Val{now.re-d.re,now.im-d.im}}); c.con->push_back({rank,op,nb,d}); };
    auto wfree=[&](int rank,int slot){ Slot&x=sl[rank][slot]; if(!x.busy) return; x.busy=false; };
    switch(o.kind){
    case K_CREATE: { Arr&a=s->a[o.a[0]]; if(a.alive) break; int d[4]; for(int k=0;k<4;k++) d[k]=(int)o.a[3+k]; a.s=make_spec(o.a[8],(int)o.a[1],(int)o.a[2],d,(int)o.a[7],s->np); a.alive=true; a.v.assign(a.s.size(),Val()); a.c.assign(a.s.size(),Claim()); t.skip=false; clear(); break; }
    case K_DESTROY: { Arr&a=s->a[o.a[0]]; if(!a.alive) break; a.alive=false; t.skip=false; t.exp=a.v; clear(); break; }
    case K_SYNC: case K_PSYNC: t.skip=false; clear(); break;
    case K_VERIFY: t.skip=false; clear(); for(int k=0;k<MAXARR;k++) if(s->a[k].alive) s->snaps[(int)i*MAXARR+k]=s->a[k].v; break;
    case K_FILL: { Arr&a=s->a[o.a[0]]; if(!a.alive) break; t.skip=false; clear(); for(auto&v:a.v) v=Val{o.a[1],tcplx(a.s.type)?o.a[1]+1:0}; break; }
    case K_PUT: case K_GET: case K_ACC: { Arr&a=s->a[o.a[0]]; if(!a.alive) break; if((o.a[1]&F_STRIDED)&&a.s.dist==D_GHOST) o.a[1]&=~(long)F_STRIDED; 
      if((o.a[1]&F_PERIODIC)&&a.s.dist>=D_IRREG&&0) break;
      Xfer x=xfer(o,a.s); bool nb=o.a[1]&F_NB, ok=true; if(o.kind==K_ACC&&a.s.type==T_LL) o.kind=K_PUT;   // the library has no long long accumulate
      for(long e:x.el){ Claim&c=a.c[e]; if(o.kind==K_GET) ok&=(c.wr==-1||c.wr==r)&&!(c.acc&~bit)&&!c.nbw&&!c.ri; else if(o.kind==K_PUT) ok&=!c.rr&&(c.wr==-1||c.wr==r)&&!(c.acc&~bit)&&!(c.rd&~bit)&&!c.nbw&&!c.nbr&&!(nb&&(c.wr>=0||c.acc)); else ok&=(c.wr==-1||(c.wr==r&&!nb))&&!(c.rd&~bit)&&!c.nbr&&!(c.nbw&0x8000)&&!(c.wr==r&&(c.acc&~bit)); }
      // an accumulate by another process after this process' put is excluded above; puts after nonblocking accumulates too
      if(o.kind==K_ACC) for(long e:x.el){ Claim&c=a.c[e]; if(c.wr>=0&&c.wr!=r) ok=false; }
      if(!ok) break; t.skip=false; if(nb){ t.slot=(int)o.a[2]; if(sl[r][t.slot].busy){ t.implicit_wait=true; wfree(r,t.slot);} Slot&q=sl[r][t.slot]; q.busy=true; q.arr=(int)o.a[0]; q.kind=o.kind; q.op=(int)i; }
      Val al=alphaval(o.a[3],a.s.type); for(size_t k=0;k<x.el.size();k++){ Claim&c=a.c[x.el[k]]; Val&v=a.v[x.el[k]]; if(o.kind==K_GET){ t.exp.push_back(v); c.rd|=bit; if(nb) c.nbr|=bit; } else { Val dv=dataval((long)i,(long)k,a.s.type,o.kind==K_ACC); t.data.push_back(dv); if(o.kind==K_PUT){ v=dv; c.wr=r; if(nb) c.nbw|=bit|0x8000; } else { v=v+al*dv; c.acc|=bit; if(nb) c.nbw|=bit; addcon(c,v,al*dv,r,(int)i,nb); } } }
      break; }
    case K_WAIT: case K_TEST: t.skip=false; t.slot=(int)o.a[0]; sl[r][t.slot].busy=false; break;
    case K_SCATTER: case K_GATHER: case K_SCACC: { Arr&a=s->a[o.a[0]]; if(!a.alive) break; if(o.kind==K_SCACC&&a.s.type==T_LL) o.kind=K_SCATTER; auto el=gslist(o,a.s,o.kind==K_SCATTER); bool ok=true;
      for(long e:el){ Claim&c=a.c[e]; if(o.kind==K_GATHER) ok&=(c.wr==-1||c.wr==r)&&!(c.acc&~bit)&&!c.nbw&&!c.ri; else if(o.kind==K_SCATTER) ok&=!c.rr&&(c.wr==-1||c.wr==r)&&!(c.acc&~bit)&&!(c.rd&~bit)&&!c.nbw&&!c.nbr; else ok&=(c.wr==-1||c.wr==r)&&!(c.rd&~bit)&&!c.nbr&&!(c.nbw&0x8000)&&!(c.wr==r&&(c.acc&~bit)); }
      if(!ok) break; t.skip=false; Val al=alphaval(o.a[2],a.s.type);
      for(size_t k=0;k<el.size();k++){ Claim&c=a.c[el[k]]; Val&v=a.v[el[k]]; if(o.kind==K_GATHER){ t.exp.push_back(v); c.rd|=bit; } else { Val dv=dataval((long)i,(long)k,a.s.type,o.kind==K_SCACC); t.data.push_back(dv); if(o.kind==K_SCATTER){ v=dv; c.wr=r; } else { v=v+al*dv; c.acc|=bit; addcon(c,v,al*dv,r,(int)i,false); } } }
      break; }
    case K_RDINC: { Arr&a=s->a[o.a[0]]; if(!a.alive||a.s.type>T_LONG) break; long e=o.a[1]%a.s.size(); Claim&c=a.c[e]; if(c.rr||((c.wr!=-1||c.acc||c.rd)&&!c.ri)) break; c.ri=true; c.rd=0x7fff; t.skip=false; RI q; q.op=(int)i; q.rank=r; q.base=a.v[e].re; q.e=(phase*10L+o.a[0])*1000000+e; q.inc=o.a[2]; q.ret=a.v[e].re; s->ri.push_back(q); t.slot=(int)s->ri.size()-1; a.v[e].re+=o.a[2]; break; }
    case K_HANDOFF: { Arr&a=s->a[o.a[0]]; int to=(int)o.a[1]; if(a.s.type==T_LL) o.a[10]&=~1L; if(p.get("x.nostr",0)&&o.a[10]>3) o.a[10]&=1; if(!a.alive||to>=s->np||to==r) break; int lo[4],hi[4]; getpatch(o,2,a.s,lo,hi,false); Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); bool ok=true; std::vector<long> el; for(long k=0;k<pt.n;k++){ int rel[4]; pat_rel(pt,k,rel); for(int j=0;j<a.s.nd;j++) rel[j]+=lo[j]; el.push_back(a.s.lin(rel)); }
      for(long e:el){ Claim&c=a.c[e]; ok&=!c.rr&&(c.wr==-1||c.wr==r)&&!(c.acc&~bit)&&!(c.rd&~bit)&&!c.nbw&&!c.nbr; } if(!ok) break; t.skip=false;
      bool acc=o.a[10]&1; for(size_t k=0;k<el.size();k++){ Claim&c=a.c[el[k]]; Val dv=dataval((long)i,(long)k,a.s.type,acc); t.data.push_back(dv); Val&v=a.v[el[k]]; v=acc?v+dv:dv; t.exp.push_back(v); c.wr=r; c.rd|=1u<<to; } break; }
    case K_RGET: { Arr&a=s->a[o.a[0]]; if(!a.alive) break; long e=o.a[1]%a.s.size(); Claim&c=a.c[e]; if(c.wr!=-1||c.ri) break; c.rr=true; if(!c.con) c.con=std::make_shared<std::vector<Contrib>>(1,Contrib{-1,-1,false,a.v[e]}); t.con.push_back(c.con); t.skip=false; break; }
    case K_STALL: t.skip=false; break;
    case K_LOCALW: { Arr&a=s->a[o.a[0]]; if(!a.alive||a.s.dist==D_BC||a.s.dist==D_SCAL||a.s.dist==D_TILE||a.s.dist==D_TIRR) break; 
      // the elements written are those of the rank's block; only valid when nothing in this phase touched the array
      bool ok=true; for(auto&c:a.c) ok&=!c.rr&&c.wr==-1&&!c.acc&&!c.rd&&!c.nbw&&!c.nbr; if(!ok) break; t.skip=false;
      for(size_t k=0;k<a.v.size();k++){ a.c[k].wr=15; } t.data=a.v; s->snaps[(int)i*MAXARR]=a.v; 
      // every rank writes its own block: value depends on the element only
      for(size_t k=0;k<a.v.size();k++) a.v[k]=dataval((long)i,(long)k,a.s.type,false); t.data=a.v; break; }
    } }
  clear(); }
static void bad(int op,const Arr&a,const char*what,long e,Val got,Val want){ int id[4]; a.s.index(e,id); sim_fail("wrong-data","%s: element (%d,%d,%d,%d) of a %d-d %s %s array is %ld%+ldi, expected %ld%+ldi",what,id[0],a.s.nd>1?id[1]:0,a.s.nd>2?id[2]:0,a.s.nd>3?id[3]:0,a.s.nd,dname(a.s.dist),tname(a.s.type),got.re,got.im,want.re,want.im); }
static void verify(int op,Arr&a,int h,const std::vector<Val>&want,bool all){
  int me=GA_Nodeid(); char*b; int es=tsize(a.s.type);
  // own part through direct access
  if(a.s.dist==D_REG||a.s.dist==D_CHUNK||a.s.dist==D_IRREG||a.s.dist==D_GHOST||a.s.dist==D_RESTR){ int lo[4],hi[4],ld[4]; NGA_Distribution(h,a.gh[GA_Nodeid()]>=0?GA_Pgroup_nodeid(a.gh[GA_Nodeid()]):me,lo,hi); bool has=true; for(int i=0;i<a.s.nd;i++) if(hi[i]<lo[i]||lo[i]<0) has=false; if(has){ NGA_Access(h,lo,hi,&b,ld); Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); for(int i=0;i<a.s.nd-1;i++) pt.ld[i]=ld[i]; for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); long off=pat_off(pt,rel); for(int i=0;i<a.s.nd;i++) id[i]=rel[i]+lo[i]; long e=a.s.lin(id); Val g=dec(a.s.type,b+off*es); if(g!=want[e]) bad(op,a,"direct access after sync",e,g,want[e]); } NGA_Release(h,lo,hi); } }
  if(all){ int lo[4]={0,0,0,0},hi[4]; for(int i=0;i<a.s.nd;i++) hi[i]=a.s.dims[i]-1; Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); b=(char*)sim_buf(pt.n*es); NGA_Get(h,lo,hi,b,pt.ld); for(long k=0;k<pt.n;k++){ Val g=dec(a.s.type,b+k*es); if(g!=want[k]) bad(op,a,"get of the whole array after sync",k,g,want[k]); } sim_buf_free(b); } }
static void run(Program&p){
  boot(p); St*s=st(); int me=GA_Nodeid(); struct Slot { bool busy=false; ga_nbhdl_t h; char*b=nullptr; int op=-1,arr=0; }; std::vector<Slot> sl(NSLOT);
  auto finish=[&](Slot&q){ Op&o=p.ops[q.op]; Arr&a=s->a[o.a[0]]; int es=tsize(a.s.type); 
    if(o.kind==K_GET){ Xfer x=xfer(o,a.s); std::vector<char> hit(x.pt.span,0); Todo&t=s->t[q.op]; for(size_t k=0;k<x.el.size();k++){ hit[x.off[k]]=1; Val g=dec(a.s.type,q.b+x.off[k]*es); if(g!=t.exp[k]) bad(q.op,a,"nonblocking get after wait",x.el[k],g,t.exp[k]); } for(long k=0;k<x.pt.span;k++) if(!hit[k]) for(int z=0;z<es;z++) if((unsigned char)q.b[k*es+z]!=0xA7) sim_fail("buffer-gap","nonblocking get wrote outside the addressed buffer positions"); }
    else { Xfer x=xfer(o,a.s); memset(q.b,0x5B,x.pt.span*es); }
    sim_buf_free(q.b); q.b=nullptr; q.busy=false; };
  auto drainpost=[&](){ for(auto&q:sl) if(q.busy){ Op&o=p.ops[q.op]; if(o.kind==K_GET){ NGA_NbWait(&q.h); } finish(q); } };
  auto dosync=[&](Slot*){ GA_Sync(); };
  for(size_t i=0;i<p.ops.size();i++){ Op&o=p.ops[i]; Todo&t=s->t[i]; if(t.skip) continue; if(o.rank>=0&&o.rank!=me&&!(o.kind==K_HANDOFF&&o.a[1]==me)&&o.kind!=K_LOCALW) continue;
    switch(o.kind){
    case K_CREATE: { GA_Sync(); drainpost(); Arr&a=s->a[o.a[0]]; char nm[32]; snprintf(nm,32,"arr%d",(int)o.a[0]); ArrSpec sp=a.s; { int d[4]; for(int k=0;k<4;k++) d[k]=(int)o.a[3+k]; sp=make_spec(o.a[8],(int)o.a[1],(int)o.a[2],d,(int)o.a[7],s->np); a.s=sp; } int gr=-1; if(o.a.size()>9&&o.a[9]){ std::vector<int> mem; for(int k=0;k<s->np;k++) mem.push_back(k); Rng pr(o.a[9]); for(int k=s->np-1;k>0;k--) std::swap(mem[k],mem[pr.below(k+1)]); gr=GA_Pgroup_create(mem.data(),s->np); sim_count("arrays on groups",1); } a.gh[me]=gr; int h=create_arr(sp,nm,gr); if(!h) sim_fail("create-failed","creating a %s array failed",dname(sp.dist)); a.h[me]=h; GA_Zero(h); sim_count("arrays",1); break; }
    case K_DESTROY: { GA_Sync(); drainpost(); Arr&a=s->a[o.a[0]]; verify((int)i,a,a.h[me],t.exp,me==(int)(i%s->np)); GA_Destroy(a.h[me]); if(a.gh[me]>=0) GA_Pgroup_destroy(a.gh[me]); break; }
    case K_SYNC: dosync(nullptr); drainpost(); GA_Sync(); break;
    case K_PSYNC: GA_Pgroup_sync(GA_Pgroup_get_world()); drainpost(); GA_Sync(); break;
    case K_FILL: { GA_Sync(); drainpost(); GA_Sync(); Arr&a=s->a[o.a[0]]; char v[16]; enc(a.s.type,v,Val{o.a[1],tcplx(a.s.type)?o.a[1]+1:0}); GA_Fill(a.h[me],v); break; }
    case K_VERIFY: { GA_Sync(); drainpost(); for(int k=0;k<MAXARR;k++){ auto it=s->snaps.find((int)i*MAXARR+k); if(it!=s->snaps.end()) verify((int)i,s->a[k],s->a[k].h[me],it->second,me==(int)((i+k)%s->np)); } GA_Sync(); break; }
    case K_PUT: case K_GET: case K_ACC: { Arr&a=s->a[o.a[0]]; int h=a.h[me]; int es=tsize(a.s.type); Xfer x=xfer(o,a.s); char*b=(char*)sim_buf(x.pt.span*es); memset(b,0xA7,x.pt.span*es); if(o.kind!=K_GET) for(size_t k=0;k<x.el.size();k++) enc(a.s.type,b+x.off[k]*es,t.data[k]);
      char al[16]; enc(a.s.type,al,alphaval(o.a[3],a.s.type)); long fl=o.a[1]; sim_count("elements",(long)x.el.size());
      if(fl&F_NB){ Slot&q=sl[t.slot]; if(q.busy){ NGA_NbWait(&q.h); finish(q); } q.busy=true; q.b=b; q.op=(int)i; if(o.kind==K_PUT) NGA_NbPut(h,x.lo,x.hi,b,x.pt.ld,&q.h); else if(o.kind==K_GET) NGA_NbGet(h,x.lo,x.hi,b,x.pt.ld,&q.h); else NGA_NbAcc(h,x.lo,x.hi,b,x.pt.ld,al,&q.h); sim_count("nb ops",1); break; }
      if(fl&F_STRIDED){ if(o.kind==K_PUT) NGA_Strided_put(h,x.lo,x.hi,x.skip,b,x.pt.ld); else if(o.kind==K_GET) NGA_Strided_get(h,x.lo,x.hi,x.skip,b,x.pt.ld); else NGA_Strided_acc(h,x.lo,x.hi,x.skip,b,x.pt.ld,al); }
      else if(fl&F_PERIODIC){ if(o.kind==K_PUT) NGA_Periodic_put(h,x.lo,x.hi,b,x.pt.ld); else if(o.kind==K_GET) NGA_Periodic_get(h,x.lo,x.hi,b,x.pt.ld); else NGA_Periodic_acc(h,x.lo,x.hi,b,x.pt.ld,al); }
      else { if(o.kind==K_PUT) NGA_Put(h,x.lo,x.hi,b,x.pt.ld); else if(o.kind==K_GET) NGA_Get(h,x.lo,x.hi,b,x.pt.ld); else NGA_Acc(h,x.lo,x.hi,b,x.pt.ld,al); }
      if(o.kind==K_GET){ std::vector<char> hit(x.pt.span,0); const char*w=fl&F_STRIDED?"strided get":fl&F_PERIODIC?"periodic get":"get"; for(size_t k=0;k<x.el.size();k++){ hit[x.off[k]]=1; Val g=dec(a.s.type,b+x.off[k]*es); if(g!=t.exp[k]) bad((int)i,a,w,x.el[k],g,t.exp[k]); } for(long k=0;k<x.pt.span;k++) if(!hit[k]) for(int z=0;z<es;z++) if((unsigned char)b[k*es+z]!=0xA7) sim_fail("buffer-gap","%s wrote outside the addressed buffer positions",w); }
      else { for(size_t k=0;k<x.el.size();k++) if(dec(a.s.type,b+x.off[k]*es)!=t.data[k]) sim_fail("source-changed","the caller's buffer was changed by a put or accumulate"); memset(b,0x5B,x.pt.span*es); }
      sim_buf_free(b); break; }
    case K_WAIT: { Slot&q=sl[t.slot]; if(q.busy){ NGA_NbWait(&q.h); finish(q); } break; }
    case K_TEST: { Slot&q=sl[t.slot]; if(q.busy){ while(!NGA_NbTest(&q.h)) sim_yield(); finish(q); } break; }
    case K_SCATTER: case K_GATHER: case K_SCACC: { Arr&a=s->a[o.a[0]]; int h=a.h[me]; int es=tsize(a.s.type); auto el=gslist(o,a.s,o.kind==K_SCATTER); int n=(int)el.size(); char*b=(char*)sim_buf(std::max(1,n)*es); int*sub=(int*)sim_buf(sizeof(int)*a.s.nd*std::max(1,n)); int**ps=(int**)sim_buf(sizeof(int*)*std::max(1,n)); 
      for(int k=0;k<n;k++){ int id[4]; a.s.index(el[k],id); for(int j=0;j<a.s.nd;j++) sub[k*a.s.nd+j]=id[j]; ps[k]=sub+k*a.s.nd; if(o.kind!=K_GATHER) enc(a.s.type,b+k*es,t.data[k]); } char al[16]; enc(a.s.type,al,alphaval(o.a[2],a.s.type)); bool flat=o.a[1]&F_FLAT; sim_count("elements",n);
      if(o.kind==K_GATHER){ if(flat) NGA_Gather_flat(h,b,sub,n); else NGA_Gather(h,b,ps,n); for(int k=0;k<n;k++){ Val g=dec(a.s.type,b+k*es); if(g!=t.exp[k]) bad((int)i,a,"gather",el[k],g,t.exp[k]); } }
      else if(o.kind==K_SCATTER){ if(flat) NGA_Scatter_flat(h,b,sub,n); else NGA_Scatter(h,b,ps,n); }
      else { if(flat) NGA_Scatter_acc_flat(h,b,sub,n,al); else NGA_Scatter_acc(h,b,ps,n,al); }
      memset(b,0x5B,std::max(1,n)*es); sim_buf_free(b); sim_buf_free(ps); sim_buf_free(sub); break; }
    case K_RDINC: { Arr&a=s->a[o.a[0]]; RI&q=s->ri[t.slot]; int id[4]; a.s.index(o.a[1]%a.s.size(),id); q.t0=sim_seq(); q.ret=NGA_Read_inc(a.h[me],id,o.a[2]); q.t1=sim_seq(); q.done=true; break; }
    case K_RGET: { Arr&a=s->a[o.a[0]]; int id[4]; long e=o.a[1]%a.s.size(); a.s.index(e,id); int ld[4]={1,1,1,1}; char*b=(char*)sim_buf(16); NGA_Get(a.h[me],id,id,b,ld); Val g=dec(a.s.type,b); sim_buf_free(b); auto&cv=*t.con[0]; 
      for(int part=0;part<(tcplx(a.s.type)?2:1);part++){ auto pv=[&](Val v){ return part?v.im:v.re; }; std::set<long> sums; long base=0; bool big=false; std::vector<long> may; for(auto&c:cv){ if(c.op<0||(c.rank==me&&c.op<(int)i&&!c.nb)) base+=pv(c.v); else if(c.rank==me&&c.op>(int)i) continue; else may.push_back(pv(c.v)); } sums.insert(base); for(long m:may){ std::vector<long> w(sums.begin(),sums.end()); for(long q:w) sums.insert(q+m); if(sums.size()>20000){ big=true; break; } }
        if(!big){ sim_count("subset-sum reads",1); if(!sums.count(pv(g))) sim_fail("not-a-subset-sum","a get concurrent with accumulates returned %ld%s, which is not the initial value (%ld) plus any subset of the %zu contributions [%s] (%s %s array)",pv(g),part?" (imaginary)":"",pv(cv[0].v),cv.size()-1,listl(may).c_str(),dname(a.s.dist),tname(a.s.type)); } }
      break; }
    case K_HANDOFF: { Arr&a=s->a[o.a[0]]; int h=a.h[me]; int es=tsize(a.s.type); int lo[4],hi[4]; getpatch(o,2,a.s,lo,hi,false); Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); char*b=(char*)sim_buf(pt.n*es); int tok=(int)i, len=0; char one[16]; enc(a.s.type,one,Val{1,0});
      if(me==o.rank){ for(long k=0;k<pt.n;k++) enc(a.s.type,b+k*es,t.data[k]); GA_Init_fence(); int how=(int)o.a[10]/2; sim_count("hand-offs",1); if(how==1){ std::vector<int> sub(pt.n*a.s.nd); for(long k=0;k<pt.n;k++){ pat_rel(pt,k,&sub[k*a.s.nd]); for(int j=0;j<a.s.nd;j++) sub[k*a.s.nd+j]+=lo[j]; } std::vector<int*> sp; for(long k=0;k<pt.n;k++) sp.push_back(&sub[k*a.s.nd]); if((pt.n+lo[0])&1){ if(o.a[10]&1) NGA_Scatter_acc(h,b,sp.data(),(int)pt.n,one); else NGA_Scatter(h,b,sp.data(),(int)pt.n); } else if(o.a[10]&1) NGA_Scatter_acc_flat(h,b,sub.data(),(int)pt.n,one); else NGA_Scatter_flat(h,b,sub.data(),(int)pt.n); }
        else if(how==2){ int sk[4]={1,1,1,1}; if(o.a[10]&1) NGA_Strided_acc(h,lo,hi,sk,b,pt.ld,one); else NGA_Strided_put(h,lo,hi,sk,b,pt.ld); }
        else if(o.a[10]&1) NGA_Acc(h,lo,hi,b,pt.ld,one); else NGA_Put(h,lo,hi,b,pt.ld); memset(b,0x5B,pt.n*es); GA_Fence(); armci_msg_snd(1000+i%1000,&tok,sizeof tok,(int)o.a[1]); }
      else { armci_msg_rcv(1000+i%1000,&tok,sizeof tok,&len,o.rank); if(tok!=(int)i) sim_fail("message","wrong message received"); NGA_Get(h,lo,hi,b,pt.ld); for(long k=0;k<pt.n;k++){ Val g=dec(a.s.type,b+k*es); int rel[4]; pat_rel(pt,k,rel); for(int j=0;j<a.s.nd;j++) rel[j]+=lo[j]; if(g!=t.exp[k]) bad((int)i,a,"get after the writer's fence and message",a.s.lin(rel),g,t.exp[k]); } }
      sim_buf_free(b); break; }
    case K_STALL: sim_stall(o.a[0]); break;
    case K_LOCALW: { GA_Sync(); drainpost(); GA_Sync(); Arr&a=s->a[o.a[0]]; int h=a.h[me]; int es=tsize(a.s.type); int lo[4],hi[4],ld[4]; NGA_Distribution(h,a.gh[GA_Nodeid()]>=0?GA_Pgroup_nodeid(a.gh[GA_Nodeid()]):me,lo,hi); bool has=true; for(int k=0;k<a.s.nd;k++) if(hi[k]<lo[k]||lo[k]<0) has=false; if(has){ char*b; NGA_Access(h,lo,hi,&b,ld); Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); for(int k=0;k<a.s.nd-1;k++) pt.ld[k]=ld[k]; for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int j=0;j<a.s.nd;j++) id[j]=rel[j]+lo[j]; enc(a.s.type,b+pat_off(pt,rel)*es,t.data[a.s.lin(id)]); } NGA_Release_update(h,lo,hi); } GA_Sync(); break; }
    } }
  GA_Sync(); drainpost(); GA_Sync();
  for(int k=0;k<MAXARR;k++) if(s->a[k].alive){ verify(-1,s->a[k],s->a[k].h[me],s->a[k].v,me==k%s->np); GA_Sync(); GA_Destroy(s->a[k].h[me]); if(s->a[k].gh[me]>=0) GA_Pgroup_destroy(s->a[k].gh[me]); }
  shutdown(); }
static void check(Program&p){ St*s=st(); std::map<long,std::vector<RI>> by; for(auto&q:s->ri) if(q.done) by[q.e].push_back(q);
  for(auto&kv:by){ auto&v=kv.second; long base=v[0].base; for(auto&q:v) base=std::min(base,q.base); std::sort(v.begin(),v.end(),[](const RI&a,const RI&b){return a.ret<b.ret;}); if(v[0].ret!=base) sim_fail("not-atomic","the first read-and-increment returned %ld, the element was %ld",v[0].ret,base); for(size_t i=1;i<v.size();i++) if(v[i].ret!=v[i-1].ret+v[i-1].inc){ sim_fail("not-atomic","read-and-increment by %ld returned %ld, a later one returned %ld",v[i-1].inc,v[i-1].ret,v[i].ret); }
    uint64_t mx=0; for(auto&q:v){ if(q.t1<mx&&q.t1<mx) {} if(mx>q.t1) sim_fail("not-linearizable","read-and-increment that returned %ld completed before an earlier-ordered one began",q.ret); mx=std::max(mx,q.t0); } } 
  sim_count("read_inc checked",(long)s->ri.size()); }
//                      put get acc nb st per sc ga sa ri ho lw stl fil rec maxel
static void g_rw(Program&p,Rng&r){ gen_mix(p,r,{30,30,5,12,20,0, 2,2,0,0, 2,2,3,1,2,400,8,40}); }
static void g_acc(Program&p,Rng&r){ if(r.chance(0.15)){ gen_mix(p,r,{2,4,25,5,0,0, 0,0,45,0, 1,1,1,0,0,16,20,90},3,6); return; } gen_mix(p,r,{6,6,40,25,10,0, 0,0,8,0, 1,1,4,0,1,150,10,50}); }
static void g_nb(Program&p,Rng&r){ gen_mix(p,r,{25,25,20,85,5,0, 1,1,1,0, 2,1,3,0,1,250,15,90}); }
static void g_gs(Program&p,Rng&r){ gen_mix(p,r,{5,3,4,10,0,0, 25,25,25,0, 1,1,3,0,2,200,8,40}); }
static void g_order(Program&p,Rng&r){ gen_mix(p,r,{25,15,12,5,5,0, 3,3,3,0, 25,5,5,1,1,150,10,50}); }
static void g_ctr(Program&p,Rng&r){ gen_mix(p,r,{3,3,3,10,0,0, 0,0,0,60, 2,0,8,0,1,60,10,60}); }
static void g_per(Program&p,Rng&r){ gen_mix(p,r,{25,25,20,5,2,70, 0,0,0,0, 1,1,2,0,2,200,8,40}); }
static void g_mixall(Program&p,Rng&r){ gen_mix(p,r,{15,15,15,30,10,5, 4,4,4,8, 5,3,6,2,3,200,10,70}); }
WORKLOAD(ga_rw,g_rw,setup,run,check)
WORKLOAD(ga_acc,g_acc,setup,run,check)
WORKLOAD(ga_nb,g_nb,setup,run,check)
WORKLOAD(ga_gs,g_gs,setup,run,check)
WORKLOAD(ga_order,g_order,setup,run,check)
WORKLOAD(ga_ctr,g_ctr,setup,run,check)
WORKLOAD(ga_per,g_per,setup,run,check)
WORKLOAD(ga_mix,g_mixall,setup,run,check)
