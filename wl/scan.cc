// C14: scans, pack/unpack, enumeration and selection against their serial definition
#include "coll.h"
extern "C" { void pnga_bin_index(long,long,long,long*,long*,long,long); }
static int anytype(Case&c){ return (int)c.r.below(T_N); }
static const int M1=M_BASIC|M_RESTR;
static GArr like(Case&c,const GArr&m,int type,const char*nm){ GArr a; a.s=m.s; a.s.type=type; a.g=create_arr(a.s,nm,c.group?c.grp:-1); if(!a.g) sim_fail("create-failed","creating a %s array failed",dname(a.s.dist)); a.v.assign(a.s.size(),Val()); a.alive=true; return a; }
static void mask(Case&c,GArr&m){ int k=(int)c.r.below(6); double d=k==0?0:k==1?1:k==2?0.03:k==3?0.9:c.r.unit(); for(auto&x:m.v){ x=Val(); if(c.r.chance(d)){ x.re=c.r.range(1,3)*(c.r.chance(0.5)?1:-1); if(tcplx(m.s.type)&&c.r.chance(0.3)){ x.im=x.re; x.re=0; } } }
  // segments that begin exactly at a process boundary
  if(c.r.chance(0.3)){ for(int q=0;q<c.np;q++){ int lo[4],hi[4]; NGA_Distribution(m.g,q,lo,hi); if(lo[0]>=0&&hi[0]>=lo[0]){ bool w=c.r.chance(0.5); if(w) m.v[lo[0]].re=1; bool z=c.r.chance(0.3); if(z) for(int i=lo[0];i<=hi[0];i++) m.v[i]=Val(); } else { c.r.chance(0.5); c.r.chance(0.3); } } }
  load(c,m); }
static void range(Case&c,int n,int*lo,int*hi){ if(c.r.chance(0.35)){ *lo=0; *hi=n-1; } else { int a=(int)c.r.below(n),b=(int)c.r.below(n); *lo=std::min(a,b); *hi=std::max(a,b); } }
static bool nz(Val v){ return v.re||v.im; }
static void c_scan(Case&c,bool add){ int t=anytype(c),tm=c.r.chance(0.5)?T_INT:anytype(c); int d[4]={(int)c.size,1,1,1}; GArr m=mk(c,tm,1,d,M1); mask(c,m); GArr s=like(c,m,t,"src"),o=like(c,m,t,"dst"); randfill(c,s); randfill(c,o); int lo,hi; range(c,d[0],&lo,&hi); bool excl=c.r.chance(0.4); jitmask(c);
  if(add){ GA_Scan_add(s.g,o.g,m.g,lo,hi,excl); bool on=false; Val run; for(int i=lo;i<=hi;i++){ if(nz(m.v[i])){ on=true; run=Val(); } if(on){ if(excl){ o.v[i]=run; run=run+s.v[i]; } else { run=run+s.v[i]; o.v[i]=run; } } } }
  else { GA_Scan_copy(s.g,o.g,m.g,lo,hi); Val last; for(int i=lo;i<=hi;i++){ if(nz(m.v[i])) last=s.v[i]; o.v[i]=last; } }
  char w[80]; snprintf(w,80,"%s%s [%d,%d]",add?"scan add":"scan copy",add&&excl?" exclusive":"",lo,hi); expect(c,o,w); expect(c,s,"scan source"); expect(c,m,"scan mask"); csync(c); drop(c,m); drop(c,s); drop(c,o); }
static void c_add(Case&c){ c_scan(c,true); }
static void c_copy(Case&c){ c_scan(c,false); }
static void c_pack(Case&c){ int t=anytype(c),tm=c.r.chance(0.5)?T_INT:anytype(c); int d[4]={(int)c.size,1,1,1}; bool un=c.r.chance(0.5); GArr m=mk(c,tm,1,d,M1); mask(c,m); GArr a=like(c,m,t,"a"); randfill(c,a); int lo,hi; range(c,d[0],&lo,&hi); long n=0; for(int i=lo;i<=hi;i++) n+=nz(m.v[i]); 
  int e[4]={(int)std::max(1L,n)+(int)c.r.below(4),1,1,1}; if(c.r.chance(0.4)) e[0]=d[0]; e[0]=std::max<int>(e[0],(int)n); GArr b=mk(c,t,1,e,M_ALL); randfill(c,b); jitmask(c); int cnt=-7; 
  if(un){ GA_Unpack(b.g,a.g,m.g,lo,hi,&cnt); long k=0; for(int i=lo;i<=hi;i++) if(nz(m.v[i])) a.v[i]=b.v[k++]; } else { GA_Pack(a.g,b.g,m.g,lo,hi,&cnt); long k=0; for(int i=lo;i<=hi;i++) if(nz(m.v[i])) b.v[k++]=a.v[i]; }
  expect_ret(c,un?"unpack count":"pack count",Val{cnt,0},Val{n,0},t); expect(c,a,un?"unpack":"pack source"); expect(c,b,un?"unpack source":"pack"); expect(c,m,"mask"); csync(c); drop(c,m); drop(c,a); drop(c,b); }
static void c_enum(Case&c){ int t=anytype(c); int d[4]={(int)c.size,1,1,1}; GArr a=mk(c,t,1,d,M1); randfill(c,a); int lo,hi; range(c,d[0],&lo,&hi); Val s=rnd(c,t,50),st=rnd(c,t,5); char vs[16],vt[16]; enc(t,vs,s); enc(t,vt,st); jitmask(c); GA_Patch_enum(a.g,lo,hi,vs,vt); for(int i=lo;i<=hi;i++) a.v[i]=s+Val{i-lo,0}*st; expect(c,a,"patch enum"); csync(c); drop(c,a); }
static void c_sel(Case&c){ int t=anytype(c),nd=(int)c.r.pick({1,2,2,3,4}),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d,M_ALL); long m=c.r.pick({2,30,1000}); randfill(c,a,m); jitmask(c); bool mn=c.r.chance(0.5); char v[16]; memset(v,0x77,16); int id[4]={-5,-5,-5,-5}; NGA_Select_elem(a.g,(char*)(mn?"min":"max"),v,id); Val g=dec(t,v);
  auto key=[&](Val x){ return tcplx(t)?x.re*x.re+x.im*x.im:x.re; }; long best=0; bool f=true; for(auto&x:a.v){ long k=key(x); if(f||(mn?k<best:k>best)) best=k; f=false; }
  for(int i=0;i<nd;i++) if(id[i]<0||id[i]>=d[i]) sim_fail("wrong-result","select %s: subscript %d of dimension %d is out of range (%s %s%s)",mn?"min":"max",id[i],i,tname(t),dname(a.s.dist),c.group?", on a group":"");
  Val at=a.v[a.s.lin(id)]; if(key(at)!=best||!(g==at)) sim_fail("wrong-result","select %s on a %s %s array returned value (%ld,%ld) at an element holding (%ld,%ld); the %simum is %ld%s",mn?"min":"max",tname(t),dname(a.s.dist),g.re,g.im,at.re,at.im,mn?"min":"max",best,c.group?" (on a group)":"");
  // every process is told the same element
  long code=a.s.lin(id),mx=code; if(c.group) GA_Pgroup_lgop(c.grp,&mx,1,(char*)"max"); else GA_Lgop(&mx,1,(char*)"max"); long mi=code; if(c.group) GA_Pgroup_lgop(c.grp,&mi,1,(char*)"min"); else GA_Lgop(&mi,1,(char*)"min"); if(mx!=mi) sim_fail("wrong-result","select returned different elements on different processes"); sim_count("results compared",1); csync(c); drop(c,a); }
// values sorted into bins
static void c_bin(Case&c){ int nb=(int)c.r.range(c.np,c.np+c.size/8); if(c.r.chance(0.06)) nb+=(int)c.r.range(400,1800); // beyond one chunk of the exchange of contributions
  std::vector<std::vector<long>> bin(nb),mine(nb); std::vector<long> cnt(nb,0); for(int b=0;b<nb;b++) cnt[b]=c.r.range(1,4); long tot=0; std::vector<long> off(nb); for(int b=0;b<nb;b++){ off[b]=tot; for(int k=0;k<cnt[b];k++){ long v=c.r.range(-50,50); int who=(int)c.r.below(c.np); bin[b].push_back(v); if(who==c.me) mine[b].push_back(v); } tot+=cnt[b]; }
  if(tot>100000) return; int d1=nb,dt=(int)tot; GArr C,O,B; ArrSpec s; s.type=T_LONG; s.nd=1; s.dims[0]=nb; for(int i=1;i<4;i++) s.dims[i]=1; s.dist=D_IRREG; int np=c.np; s.nblk[0]=np; for(int i=0;i<np;i++) s.map.push_back((int)((long)nb*i/np)); C.s=s; O.s=s; B.s=s; B.s.dims[0]=dt; for(int i=0;i<np;i++) B.s.map[i]=(int)off[s.map[i]];
  for(GArr*a:{&C,&O,&B}){ a->g=create_arr(a->s,"bin",c.group?c.grp:-1); if(!a->g) sim_fail("create-failed","creating a bin array failed"); a->alive=true; a->v.assign(a->s.size(),Val()); } for(int b=0;b<nb;b++){ C.v[b].re=cnt[b]; O.v[b].re=off[b]; } load(c,C); load(c,O); csync(c); (void)d1;
  std::vector<long> val,sub; for(int b=0;b<nb;b++) for(long v:mine[b]){ val.push_back(v); sub.push_back(b+1); } jitmask(c); bool srt=c.r.chance(0.6); pnga_bin_index(B.g,C.g,O.g,val.data(),sub.data(),(long)val.size(),srt); 
  // contents of every bin, as a multiset (in ascending order if sorted)
  std::vector<long> got(dt); int lo=0,hi=dt-1; NGA_Get(B.g,&lo,&hi,got.data(),nullptr); for(int b=0;b<nb;b++){ std::vector<long> w=bin[b],g(got.begin()+off[b],got.begin()+off[b]+cnt[b]); std::sort(w.begin(),w.end()); if(!srt) std::sort(g.begin(),g.end()); if(w!=g) sim_fail("wrong-value","binning: bin %d of %d does not hold its values%s (element 0 is %ld, expected %ld)%s",b,nb,srt?" in order":"",g[0],w[0],c.group?" (on a group)":""); } sim_count("bins compared",nb); csync(c); drop(c,C); drop(c,O); drop(c,B); }
static const Cases cases={{"scan_add",c_add,6},{"scan_copy",c_copy,4},{"pack",c_pack,5},{"enum",c_enum,2},{"select",c_sel,4},{"bins",c_bin,2}};
COLL_WORKLOAD(scan,cases,25,1,7,150)
