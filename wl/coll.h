// Framework of the "case" workloads: a program is a list of self-contained collective cases. Every
// case creates its own arrays from its seed, fills them, runs one operation of the library and
// compares every element and every returned value with a serial model that each process evaluates
// for itself. Cases run on the world or on concurrent disjoint groups.
#ifndef COLL_H
#define COLL_H
#include "common.h"
#include <functional>
#include <memory>
struct Case { Rng r; long size; int grp,np,me,dm; bool group,masked,leaves=false; const char*name; Program*p; std::vector<int> mem;
  Case(uint64_t s):r(s),size(100),grp(-1),np(1),me(0),dm(-1),group(false),masked(false),name(""),p(nullptr){} };
enum { M_BASIC=1|2|4, M_GHOST=128, M_CYC=8|16|32|64, M_RESTR=256, M_ALL=511 };
struct GArr { ArrSpec s; int g=0; std::vector<Val> v; bool alive=false; };
typedef std::vector<int> VI;
static inline int pick_dist(Case&c,int mask){ long dm=c.p->get("x.dists",-1)&mask&c.dm; if(!dm) dm=1; if(c.r.chance(0.25)&&(dm&1)) return D_REG; int d; do d=(int)c.r.below(D_N); while(!((dm>>d)&1)); return d; }
static inline void dims_for(Case&c,int nd,int*d){ double side=pow((double)std::max(2L,c.size),1.0/nd); for(int i=0;i<4;i++) d[i]=i<nd?std::max(1,(int)(side*(0.3+c.r.unit()*1.3))):1; }
static inline GArr mk(Case&c,int type,int nd,const int*d,int mask=M_ALL,const char*nm="w"){ GArr a; long seed=(long)(c.r.next()>>40); int di=pick_dist(c,mask); a.s=make_spec(seed,type,nd,d,di,c.np); a.g=create_arr(a.s,nm,c.group?c.grp:-1); if(!a.g) sim_fail("create-failed","creating a %s array failed",dname(di)); a.v.assign(a.s.size(),Val()); a.alive=true; sim_count("arrays",1); return a; }
static inline void csync(Case&c){ if(c.group) GA_Pgroup_sync(c.grp); else GA_Sync(); }
// the synchronisation a masked operation left out
static inline void unmask(Case&c){ if(c.masked){ c.masked=false; csync(c); } }
// fill with values: process k writes an interval of dimension 0
static inline void load(Case&c,GArr&a){ int nd=a.s.nd,es=tsize(a.s.type); int n0=a.s.dims[0]; int lo0=(int)((long)n0*c.me/c.np),hi0=(int)((long)n0*(c.me+1)/c.np)-1; if(hi0>=lo0){ int lo[4],hi[4],ld[4]; long row=1; for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=a.s.dims[i]-1; if(i) { ld[i-1]=a.s.dims[i]; row*=a.s.dims[i]; } } lo[0]=lo0; hi[0]=hi0; long n=row*(hi0-lo0+1); char*b=(char*)sim_buf(n*es); for(long k=0;k<n;k++) enc(a.s.type,b+k*es,a.v[row*lo0+k]); NGA_Put(a.g,lo,hi,b,ld); sim_buf_free(b); } }
static inline Val rnd(Case&c,int type,long m){ Val v; v.re=c.r.range(-m,m); if(tcplx(type)) v.im=c.r.range(-m,m); return v; }
static inline void randfill(Case&c,GArr&a,long m=9){ for(auto&x:a.v) x=rnd(c,a.s.type,m); load(c,a); }
static inline void expect(Case&c,GArr&a,const char*what){ unmask(c); int nd=a.s.nd,es=tsize(a.s.type); int lo[4],hi[4],ld[4]; Rng q(c.me*77+a.s.size()); bool whole=q.chance(0.6);
  for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=a.s.dims[i]-1; } if(!whole) NGA_Distribution(a.g,(c.me+1)%c.np,lo,hi); for(int i=0;i<nd;i++) if(lo[i]<0||hi[i]<lo[i]||hi[i]>=a.s.dims[i]) whole=true; if(whole) for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=a.s.dims[i]-1; }
  Patch pt=mk_patch(nd,lo,hi,nullptr); for(int i=0;i<nd-1;i++) ld[i]=pt.ld[i]; char*b=(char*)sim_buf(pt.span*es); memset(b,0x9C,pt.span*es); NGA_Get(a.g,lo,hi,b,ld); sim_count("elements compared",pt.n);
  for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int i=0;i<nd;i++) id[i]=rel[i]+lo[i]; long e=a.s.lin(id); Val g=dec(a.s.type,b+k*es); if(g!=a.v[e]){ char ix[64]; int o=0; for(int i=0;i<nd;i++) o+=snprintf(ix+o,64-o,"%s%d",i?",":"",id[i]); char dm[64]; o=0; for(int i=0;i<nd;i++) o+=snprintf(dm+o,64-o,"%s%d",i?"x":"",a.s.dims[i]);
      char w1[64],w2[64]; if(tcplx(a.s.type)){ snprintf(w1,64,"(%ld,%ld)",g.re,g.im); snprintf(w2,64,"(%ld,%ld)",a.v[e].re,a.v[e].im); } else { snprintf(w1,64,"%ld",g.re); snprintf(w2,64,"%ld",a.v[e].re); }
      sim_fail("wrong-value","%s: %s: element [%s] of the %s %s %s array is %s, expected %s%s",c.name,what,ix,dm,tname(a.s.type),dname(a.s.dist),w1,w2,c.group?" (on a group)":""); } }
  sim_buf_free(b); }
static inline void drop(Case&c,GArr&a){ unmask(c); if(a.alive){ GA_Destroy(a.g); a.alive=false; } }
struct Reg { int lo[4],hi[4]; };
static inline Reg rpatch(Case&c,const ArrSpec&s){ Reg p; for(int i=0;i<s.nd;i++){ if(c.r.chance(0.3)){ p.lo[i]=0; p.hi[i]=s.dims[i]-1; } else { int a=(int)c.r.below(s.dims[i]),b=(int)c.r.below(s.dims[i]); p.lo[i]=std::min(a,b); p.hi[i]=std::max(a,b); } } return p; }
static inline long rsize(const Reg&p,int nd){ long n=1; for(int i=0;i<nd;i++) n*=p.hi[i]-p.lo[i]+1; return n; }
static inline long rlin(const ArrSpec&s,const Reg&p,long k){ int id[4]; for(int i=s.nd-1;i>=0;i--){ int e=p.hi[i]-p.lo[i]+1; id[i]=p.lo[i]+k%e; k/=e; } return s.lin(id); }
// a patch of the same shape placed elsewhere in another array that is at least as large
static inline Reg place(Case&c,const Reg&p,const ArrSpec&from,const ArrSpec&to){ Reg q; for(int i=0;i<to.nd;i++){ int e=p.hi[i]-p.lo[i]+1; q.lo[i]=(int)c.r.below(to.dims[i]-e+1); q.hi[i]=q.lo[i]+e-1; } return q; }
static inline void expect_ret(Case&c,const char*what,Val got,Val want,int type){ if(got!=want) sim_fail("wrong-result","%s: %s returned (%ld,%ld) on member %d, expected (%ld,%ld) (%s%s)",c.name,what,got.re,got.im,c.me,want.re,want.im,tname(type),c.group?", on a group":""); sim_count("results compared",1); }
static inline void jitter(Case&c){ Rng q(c.r.s+c.me*131); if(q.chance(0.15)) sim_stall(q.pick({500,20000,1000000})); }
// before an operation: sometimes leave out its synchronisation at the beginning, the end or both (the caller synchronises instead)
static inline void jitmask(Case&c){ jitter(c); if(c.r.chance(0.2)&&!c.p->get("x.nomask",0)){ unmask(c); csync(c); int b=(int)c.r.below(2); GA_Mask_sync(b,b?0:(int)c.r.below(2)); c.masked=true; sim_count("operations with masked synchronisation",1); } }
struct CaseDef { const char*name; void(*fn)(Case&); int weight; };
typedef std::vector<CaseDef> Cases;
void coll_gen(Program&,Rng&,const Cases&,int grp_pct,int np_lo=1,int np_hi=6,int maxsize=200);
void coll_setup(Program&); void coll_run(Program&,const Cases&); void coll_check(Program&);
#define COLL_WORKLOAD(n,cases,grp,lo,hi,maxs) static void n##_gen(Program&p,Rng&r){ coll_gen(p,r,cases,grp,lo,hi,maxs); } static void n##_run(Program&p){ coll_run(p,cases); } WORKLOAD(n,n##_gen,coll_setup,n##_run,coll_check)
#endif
